from gen import isa, prog
from . import common

ID = "C17"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "twin programs: macro calls and their textual expansion assembled by the real program and compared; model"
NOTE = ("Macros with arguments, nested and conditional calls, repeats, local labels, MEXIT at every depth and bounded "
        "recursion are expanded textually by the generator; the expanded twin must give the same bytes, and both must "
        "agree with the reference assembler. Missing arguments and endless recursion must fail.")
RULE = "distinct (feature combination, call depth, argument count) of macro programs whose expansion gave the same bytes"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 11200 if tier == "quick" else 100000


class G:
    def __init__(self, r):
        self.r = r
        self.macros = {}          # name -> (params, body); body: list of items
        self.order = []
        self.defs = []
        self.keys = set()
        self.uniq = 0
        self.budget = 400

    def arg(self):
        r = self.r
        k = r.random()
        if k < .5:
            return str(r.randrange(256))
        if k < .6:
            return "$%02x" % r.randrange(256)
        if k < .7:
            n = "s%d" % len(self.defs)
            self.defs.append("%s equ %d" % (n, r.randrange(256)))
            return n
        if k < .8:
            return "%d+%d" % (r.randrange(100), r.randrange(100))
        if k < .85:
            return "'%s" % r.choice("abcXYZ")
        if k < .9:
            return '"%s"' % "".join(r.choice("abc xyz") for _ in range(r.randrange(1, 6)))
        return "[%d*2]" % r.randrange(100)

    def body(self, params, level):
        """Items: text templates, ('if', cond-arg, items, items), ('rep', n, items), ('call', name, args), ('mexit', arg)."""
        r = self.r
        out = []
        for _ in range(r.randrange(1, 6)):
            k = r.random()

            def ref():
                return "{%d}" % r.randint(1, params) if params else str(r.randrange(256))
            if k < .3:
                out.append("\tdc.b\t%s" % ",".join(ref() for _ in range(r.randrange(1, 4))))
            elif k < .36 and params:
                out.append("\tdc.b\t{0}")
                self.keys.add("all args")
            elif k < .42:
                out.append("\tlda\t#<[%s]" % ref())
            elif k < .47 and params:
                out.append("\tdc.b\t\"x\",%s,\"{\"" % ref() if False else "\tdc.b\t\"x\",%s" % ref())
            elif k < .55:
                out.append(("local",))
                self.keys.add("local")
            elif k < .65 and self.order and level < 3:
                n = r.choice(self.order)
                p = self.macros[n][0]
                args = [ref() if r.random() < .5 else self.arg() for _ in range(p)]
                if p > 1 and params == p and r.random() < .3:
                    args = ["{0}"]
                out.append(("call", n, args))
                self.keys.add("nested")
            elif k < .74 and level < 3:
                a, b = self.body(params, level + 1), self.body(params, level + 1) if r.random() < .5 else None
                out.append(("if", r.randrange(2), a, b))
                self.keys.add("if")
            elif k < .82 and level < 3:
                out.append(("rep", r.randrange(0, 4), self.body(params, level + 1)))
                self.keys.add("repeat")
            elif k < .9:
                out.append(("mexit", r.randrange(2)))
                self.keys.add("mexit")
            else:
                out.append("\t; comment {1}" if params else "\t; comment")
        return out

    def define(self, j):
        r = self.r
        n = r.choice(["mac%d", "Mac%d", "m_%d", "push%d", "abcdefghijklmnopqrstuvwxyz"[:r.randrange(3, 26)] + "%d"]) % j
        p = r.choice([0, 1, 1, 2, 3, 9, 12])
        self.macros[n.lower()] = (p, self.body(p, 0), n)
        self.order.append(n.lower())

    def lines(self, items, ind="\t"):
        """The macro as source text."""
        out = []
        for it in items:
            if isinstance(it, str):
                out.append(it)
            elif it[0] == "local":
                out += [".lo%d" % len(out), "\tdc.w\t.lo%d" % len(out)]
                out[-1] = "\tdc.w\t" + out[-2]
            elif it[0] == "call":
                out.append("\t%s\t%s" % (self.macros[it[1]][2], ",".join(it[2])))
            elif it[0] == "if":
                out.append("\tif %d" % it[1])
                out += self.lines(it[2])
                if it[3] is not None:
                    out.append("\telse")
                    out += self.lines(it[3])
                out.append("\tendif")
            elif it[0] == "rep":
                out.append("\trepeat %d" % it[1])
                out += [s for s in self.lines(it[2])]
                out.append("\trepend")
            elif it[0] == "mexit":
                if it[1]:
                    out += ["\tif 1", "\tmexit", "\tendif"]
                else:
                    out += ["\tif 0", "\tmexit", "\tendif"]
        return out

    class Exit(Exception):
        pass

    def sub(self, t, args):
        t = t.replace("{0}", ",".join(args))
        for k in range(len(args), 0, -1):
            t = t.replace("{%d}" % k, args[k - 1])
        return t

    def expand(self, items, args, out):
        for it in items:
            self.budget -= 1
            if self.budget < 0:
                raise OverflowError
            if isinstance(it, str):
                if ";" not in it:
                    out.append(self.sub(it, args))
            elif it[0] == "local":
                self.uniq += 1
                out += ["u%d" % self.uniq, "\tdc.w\tu%d" % self.uniq]
            elif it[0] == "call":
                a = []
                for x in it[2]:
                    a += args if x == "{0}" else [self.sub(x, args)]
                self.call(it[1], a, out)
            elif it[0] == "if":
                if it[1]:
                    self.expand(it[2], args, out)
                elif it[3] is not None:
                    self.expand(it[3], args, out)
            elif it[0] == "rep":
                for _ in range(it[1]):
                    self.expand(it[2], args, out)
            elif it[0] == "mexit":
                if it[1]:
                    raise self.Exit

    def call(self, n, args, out):
        try:
            self.expand(self.macros[n][1], args, out)
        except self.Exit:
            pass


def haslocal_in_rep(items, inrep=False):
    for it in items:
        if isinstance(it, tuple):
            if it[0] == "local" and inrep:
                return True
            if it[0] == "rep" and haslocal_in_rep(it[2], True):
                return True
            if it[0] == "if" and (haslocal_in_rep(it[2], inrep) or it[3] and haslocal_in_rep(it[3], inrep)):
                return True
    return False


def uniqlocals(lines):
    """Gives the local labels of one macro different names."""
    n = 0
    for k, s in enumerate(lines):
        if s.startswith(".lo"):
            n += 1
            lines[k] = ".lo%d" % n
            lines[k + 1] = "\tdc.w\t.lo%d" % n
    return lines


def longcall(r):
    """Lines that become long, or too long, when the arguments are filled in: complete, or refused."""
    n, copies = r.randrange(1, 4), r.randrange(2, 16)
    want = r.choice([100, 900, 1000, 1010, 1018, 1020, 1022, 1024, 1030, 1100, 2000, 4000])
    args = [[str(r.randrange(256)) for _ in range(max(1, min(want // copies // 4, 250 // n)))] for _ in range(n)]
    refs = [r.randrange(n) for _ in range(copies)]
    # one argument holds no comma, so longer ones are sums
    join = lambda a: "+".join(a)
    t = "\tdc.l\t" + ",".join("{%d}" % (j + 1) for j in refs)
    exp = "\tdc.l\t" + ",".join(join(args[j]) for j in refs)
    vals = [sum(map(int, args[j])) for j in refs]
    tail = r.choice(["", "", "\tdc.b 3\n"])
    body = "\tmac mm\n%s\n%s\tendm\n" % (t, tail)
    call = "\tmm %s\n" % ",".join(map(join, args))
    img = b"".join(x.to_bytes(4, "little") for x in vals) + (b"\3" if tail else b"")
    if r.random() < .2:
        call, img = "\trepeat 2\n%s\trepend\n" % call, img * 2
    return {"files": {"main.asm": "\tprocessor 6502\n\torg $1000\n\tdc.b 1\n%s%s\tdc.b 2\n" % (body, call)},
            "args": ["main.asm", "-f3", "-oO.bin"], "kind": "long", "image": (b"\1" + img + b"\2").hex(),
            "length": max(len(exp), max(map(len, call.split("\n")))), "keys": [copies, min(len(exp) // 50, 30)]}


def case(r, i, tier):
    k = r.random()
    if k > .96:
        return longcall(r)
    if k < .1:
        w = dict(prog.DEFAULT, macro=15, call=25, cond=8, repeat=6, local=6, dollar=6)
        p = prog.Prog(r, size=r.choice([10, 20, 40]), weights=w, errors=r.choice([0, 0, .03]))
        return {"files": p.build(), "args": ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin"], "kind": "random", "keys": []}
    if k < .2:
        # bounded and endless recursion, missing arguments
        kind = r.choice(["rec", "rec", "mutual", "missing", "missing", "extra", "blank", "blank"])
        if kind == "rec":
            n = r.choice([1, 2, 10, 29, 30, 31, 32, 33, 34, 100])
            body = "\tmac rr\n\tdc.b {1}\n\tif {1} < %d\n\trr {1}+1\n\tendif\n\tdc.b {1}\n\tendm\n\trr 1\n" % n
            if r.random() < .2:
                body = body.replace("< %d" % n, "< 1000")
        elif kind == "mutual":
            n = r.choice([3, 10, 15, 16, 17, 40])
            body = "\tmac ma\n\tdc.b {1}\n\tif {1} < %d\n\tmb {1}+1\n\tendif\n\tendm\n\tmac mb\n\tma {1}\n\tendm\n\tma 1\n" % n
        elif kind == "blank":           # arguments that are empty or hold blanks, which count all the same
            n = r.randrange(2, 6)
            args = [r.choice(["", "", "7", "30", "+4"]) for _ in range(n)]
            args[-1] = args[-1] or "9"
            tmpl = ["\tdc.b 1{%d}" % r.randint(1, n) for _ in range(r.randrange(1, 5))]
            sep = r.choice([",", ", ", ",  "])
            body = "\tmac mm\n%s\n\tendm\n\tmm %s\n" % ("\n".join(tmpl), sep.join(args))
            exp = []
            for s in tmpl:
                for j in range(n):
                    s = s.replace("{%d}" % (j + 1), args[j])
                exp.append(s)
            h = "\tprocessor 6502\n\torg $1000\n"
            return {"files": {"main.asm": h + body}, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "twin",
                    "keys": ["blank", n, args.count("")], "twin": h + "\n".join(exp) + "\n"}
        elif kind == "missing":
            n = r.randrange(1, 5)
            body = "\tmac mm\n\tdc.b %s\n\tendm\n\tmm %s\n" % (",".join("{%d}" % (j + 1) for j in range(n)),
                                                            ",".join("1" for _ in range(r.randrange(0, n))))
            if r.random() < .4:
                body = body.replace("\tdc.b", "\tif 0\n\tdc.b").replace("\tendm", "\tendif\n\tendm")
        else:
            n = r.randrange(0, 3)
            body = "\tmac mm\n\tdc.b 7%s\n\tendm\n\tmm 1,2,3,4%s\n" % (
                "".join(",{%d}" % (j + 1) for j in range(n)), r.choice(["", ",", ", ", " ", "  ; c"]))
        return {"files": {"main.asm": "\tprocessor 6502\n\torg $1000\n" + body + "\tdc.b $55\n"},
                "args": ["main.asm", "-f3", "-oO.bin"], "kind": kind, "keys": [n]}
    while True:
        g = G(r)
        for j in range(r.randrange(1, 5)):
            g.define(j)
        if any(haslocal_in_rep(m[1]) for m in g.macros.values()):
            continue
        head = ["\tprocessor 6502", "\torg $1000"]
        a, b, files = [], [], {}
        for n in g.order:
            p, body, nm = g.macros[n]
            a += ["\t%s\t%s" % (r.choice(["mac", "MAC", "macro"]), nm)] + uniqlocals(g.lines(body)) + ["\tendm"]
        try:
            for j in range(r.randrange(1, 6)):
                n = r.choice(g.order)
                args = [g.arg() for _ in range(g.macros[n][0])]
                lab = "call%d" % j if r.random() < .3 else ""
                nm = g.macros[n][2]
                line = "%s\t%s\t%s" % (lab, r.choice([nm, nm, nm.upper()]), r.choice([",", ",", ", "]).join(args))
                out = []
                g.call(n, args, out)
                if lab:
                    out.insert(0, lab)
                where = r.choice(["", "", "", "if", "rep", "inc"])
                if where == "if":
                    line = "\tif 1\n%s\n\telse\n%s\n\tendif" % (line, line.replace("call", "nocall"))
                elif where == "rep" and not lab and not any(s[:1] == "u" for s in out):
                    m = r.randrange(3)
                    line = "\trepeat %d\n%s\n\trepend" % (m, line)
                    out = out * m
                elif where == "inc":
                    files["i%d.h" % j] = line + "\n"
                    line = '\tinclude "i%d.h"' % j
                g.keys.add(where)
                a.append(line)
                b += out
                if r.random() < .3:
                    a.append("\tdc.w\t.")
                    b.append("\tdc.w\t.")
        except OverflowError:
            continue
        if len(b) > 3000:
            continue
        later = r.random() < .4
        x = head + (g.defs if not later else []) + a + (g.defs if later else [])
        y = head + (g.defs if not later else []) + b + (g.defs if later else [])
        files["main.asm"] = "\n".join(x) + "\n"
        return {"files": files, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "twin", "keys": sorted(g.keys),
                "twin": "\n".join(y) + "\n"}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    v.count("kind " + case["kind"] + (" ok" if o.code == 0 else " refused"))
    v.saw(case["kind"], *case["keys"], p.code == 0, [min(p.stats.get(k, 0), 20) for k in ("macarg",)])
    if case["kind"] == "long":
        if o.code == 0:
            v.count("bytes of long expansions", len(case["image"]) // 2)
            if o.file("O.bin") != bytes.fromhex(case["image"]):
                v.fail("line expanded to %d characters gives other bytes" % case["length"], (o.file("O.bin") or b"")[:40].hex())
        elif case["length"] < 1000:
            v.fail("call whose lines have fewer than 1000 characters refused", (o.out or b"")[-300:].decode("latin-1"))
    if case["kind"] != "twin":
        common.stats_seen(v, p)
        return
    q = common.basic({"files": {"main.asm": case["twin"]}, "args": case["args"]}, ctx, v)
    if q is None:
        return
    if (q.code == 0) != (o.code == 0):
        v.fail("expanded text and macro calls differ in success", (o.out or b"")[-200:].decode("latin-1") + " / " +
               (q.out or b"")[-200:].decode("latin-1"))
        return
    if o.code == 0:
        a, b = o.file("O.bin") or b"", q.file("O.bin") or b""
        v.count("expansion bytes compared", len(a))
        if a != b:
            k = common.diffpos(a, b)
            v.fail("macro calls and expanded text give different bytes", "at %d: %s, expanded %s" % (
                k, a[k:k + 8].hex(), b[k:k + 8].hex()))


def need(tier):
    return {"expansion bytes compared": 50000, "kind twin ok": 3000, "kind rec ok": 50, "kind rec refused": 20, "kind missing refused": 30,
            "kind long ok": 50, "kind long refused": 20}
