from gen import isa, prog
from . import common

ID = "C18"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "marker bytes of generated IF and REPEAT trees compared with an interpreter of the tree; reference model"
NOTE = ("Nested IF/ELSE/ENDIF, IFCONST, IFNCONST and REPEAT blocks, in macros, includes and each other, with conditions "
        "and counts from constants, variables changed in the loops and symbols defined later; each leaf emits its own "
        "marker, the expected sequence comes from interpreting the tree. Skipped branches contain unassemblable text.")
RULE = "distinct (block kind, depth, taken, condition kind, count, place) executed or skipped as expected"
ASSUME = common.ASSUME
NO_MINIMISE = True
JUNK = ["\tthis is no statement", "\tlda", "\tdc.b 1/0", "\terr", "\tdc.b nosuchsymbol", "\tdc.b 256", "\tincbin \"nofile\"",
        "\tinclude \"nofile\"", "\torg 0", "\tnosuchmacro 1,2", "\tif nosuchsymbol\n\tdc.b 1\n\tendif", "\tifconst a b c\n\telse\n\tendif",
        "\tds -1", "\tprocessor f8", "\tmexit", "\trepeat -1\n\tdc 1\n\trepend", "\trepeat 3\n\tfoo\n\trepend", "nolabel equ 1/0", "\talign 0",
        "\tif 1\n\terr\n\telse\n\terr\n\tendif", "\techo \"never\"", "\tseg other", "skip_me", "sklab\tifconst\tnosuch9\n\tendif", "sklab\tifnconst\tnosuch9\n\terr\n\tendif", "known\tif 1\n\tendif",
        "known\trepeat 2\n\tdc 1\n\trepend", "known\tdc 1", "v0 set 77",
        "known equ 9", "known set 9", "\tifconst known\n\terr\n\tendif", "\tifnconst known\n\terr\n\telse\n\terr\n\tendif", "\trend", "\tdc [", "\t??"]


MACJUNK = ["\tmac skmac\n\tdc.b 1\n\tendm", "\tmac mc0\n\terr\n\tendm"]


def cases(tier):
    return 12600 if tier == "quick" else 120000


class G:
    def __init__(self, r):
        self.r = r
        self.mark = 0
        self.vars = []
        self.post = []
        self.files = {}
        self.macros = []
        self.keys = set()
        self.nconst = {}
        self.inmac = 0

    def const(self, v):
        """Text for a condition value (not depending on variables), and its kind."""
        r = self.r
        k = r.random()
        if k < .4:
            return str(v), "num"
        if k < .6:
            n = "k%d" % len(self.nconst)
            self.nconst[n] = v
            return n, "earlier"
        if k < .8:
            n = "f%d" % len(self.post)
            self.post.append("%s equ %d" % (n, v))
            return n, "later"
        return "%d==%d" % (r.randrange(5), 9) if v == 0 else "%d+%d" % (v - 1, 1), "expr"

    def block(self, depth, n=None):
        """A list of nodes."""
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4) if n is None else n):
            k = r.random()
            if k < .35 or depth >= 5:
                self.mark += 1
                out.append(("mark", self.mark))
            elif k < .45:
                if not self.vars or r.random() < .3:
                    self.vars.append("v%d" % len(self.vars))
                v = r.choice(self.vars)
                out.append(("inc", v, r.randrange(1, 3)))
            elif k < .5 and self.vars:
                out.append(("show", r.choice(self.vars)))
            elif k < .7:
                kind = r.choice(["if", "if", "if", "var", "ifconst", "ifnconst"])
                a = self.block(depth + 1)
                b = self.block(depth + 1) if r.random() < .6 else None
                if kind == "var" and self.vars:
                    out.append(("ifvar", r.choice(self.vars), r.randrange(6), a, b))
                elif kind in ("ifconst", "ifnconst"):
                    out.append((kind, r.random() < .5, a, b))
                else:
                    v = r.choice([0, 0, 1, 1, 2, 255, 256, -1, 1 << 32])
                    out.append(("if", v, self.const(v), a, b))
            elif k < .9:
                if r.random() < .2 and self.vars:
                    out.append(("repvar", r.choice(self.vars), self.block(depth + 1)))
                else:
                    c = r.choice([0, 0, 1, 2, 3, 4]) if depth else r.choice([0, 1, 2, 5, 17, 64]) if r.random() < .97 else r.choice([255, 256, 257, 300, 513])
                    out.append(("rep", c, self.const(c), self.block(depth + 1)))
            elif k < .95:
                self.macros.append(None)
                n = len(self.macros) - 1
                out.append(("macro", n, self.block(depth + 1) + self.tail(depth)))
            else:
                out.append(("inclu", self.block(depth + 1) + self.tail(depth)))
        return out

    def tail(self, depth):
        """Blocks that the end of the file or macro closes."""
        r = self.r
        out = []
        if r.random() < .75:
            return out
        for _ in range(r.choice([1, 2, 2, 3])):
            v = r.choice([0, 1, 1, 2, 5])
            out = [(r.choice(["openif", "openif", "openrep", "openelse"]), v, self.const(v), self.block(depth + 1, r.randrange(3)) + out)]
        return out

    def text(self, nodes, skipped=False):
        r = self.r
        out = []
        for x in nodes:
            if x[0] == "mark":
                out.append("\tdc.w\t%d" % x[1])
            elif x[0] == "inc":
                out.append("%s set %s+%d" % (x[1], x[1], x[2]))
            elif x[0] == "show":
                out.append("\tdc.b <%s" % x[1])
            elif x[0] in ("if", "ifvar", "ifconst", "ifnconst"):
                if x[0] == "if":
                    head, taken, a, b = "\t%s\t%s" % (r.choice(["if", "IF", ".if", "#if"]), x[2][0]), x[1] != 0, x[3], x[4]
                elif x[0] == "ifvar":
                    head, taken, a, b = "\tif\t%s > %d" % (x[1], x[2]), None, x[3], x[4]
                else:
                    taken = x[1] == (x[0] == "ifconst")
                    head, a, b = "\t%s\t%s" % (x[0], "known" if x[1] else "unknown9"), x[2], x[3]
                ta, tb = self.text(a), self.text(b) if b is not None else None
                if taken is False:
                    ta = self.junk(ta)
                elif taken is True and tb is not None:
                    tb = self.junk(tb)
                out.append(head)
                out += ta
                if tb is not None:
                    out.append("\t" + r.choice(["else", "ELSE"]))
                    out += tb
                out.append("\t" + r.choice(["endif", "ENDIF", "eif"]))
            elif x[0] in ("rep", "repvar"):
                out.append("\t%s\t%s" % (r.choice(["repeat", "REPEAT"]), x[2][0] if x[0] == "rep" else x[1]))
                out += self.text(x[3] if x[0] == "rep" else x[2])
                out.append("\t" + r.choice(["repend", "REPEND"]))
            elif x[0] == "openelse":
                out += ["\tif\t%s" % x[2][0]] + (self.junk([]) if not x[1] else []) + ["\telse"] + self.text(x[3])
            elif x[0] in ("openif", "openrep"):
                out += ["\t%s\t%s" % (x[0][4:].replace("rep", "repeat"), x[2][0])] + self.text(x[3])
            elif x[0] == "macro":
                self.inmac += 1
                self.macros[x[1]] = self.text(x[2])
                self.inmac -= 1
                out.append("\tmc%d" % x[1])
            elif x[0] == "inclu":
                n = "i%d.h" % len(self.files)
                self.files[n] = None
                self.files[n] = "\n".join(self.text(x[1])) + "\n"
                out.append('\tinclude "%s"' % n)
        return out

    def junk(self, lines):
        r = self.r
        if r.random() < .5:
            k = r.randrange(len(lines) + 1)
            return lines[:k] + [r.choice(JUNK) if self.inmac or r.random() < .9 else r.choice(MACJUNK)] + lines[k:]
        return lines

    def run(self, nodes, env, out, depth, place):
        for x in nodes:
            if len(out) > 6000:
                raise OverflowError
            if x[0] == "mark":
                out += x[1].to_bytes(2, "little")
            elif x[0] == "inc":
                env[x[1]] += x[2]
            elif x[0] == "show":
                out.append(env[x[1]] & 0xff)
            elif x[0] in ("if", "ifvar", "ifconst", "ifnconst"):
                if x[0] == "if":
                    c, a, b, kind = x[1] != 0, x[3], x[4], x[2][1]
                elif x[0] == "ifvar":
                    c, a, b, kind = env[x[1]] > x[2], x[3], x[4], "var"
                else:
                    c, a, b, kind = x[1] == (x[0] == "ifconst"), x[2], x[3], "const"
                self.keys.add((x[0], depth, c, kind, b is not None, place))
                if c:
                    self.run(a, env, out, depth + 1, place)
                elif b is not None:
                    self.run(b, env, out, depth + 1, place)
            elif x[0] in ("rep", "repvar"):
                n = x[1] if x[0] == "rep" else env[x[1]]
                self.keys.add((x[0], depth, min(n, 20) if n < 255 else n, x[2][1] if x[0] == "rep" else "var", place))
                if n > 700:
                    raise OverflowError
                for _ in range(n):
                    self.run(x[3] if x[0] == "rep" else x[2], env, out, depth + 1, place)
            elif x[0] in ("openif", "openrep", "openelse"):
                c = (x[1] == 0) == (x[0] == "openelse")
                self.keys.add((x[0], depth, c, x[2][1], place))
                if c:
                    self.run(x[3], env, out, depth + 1, place)
            elif x[0] == "macro":
                self.run(x[2], env, out, depth + 1, place + "m")
            elif x[0] == "inclu":
                self.run(x[1], env, out, depth + 1, place + "i")


def many(r):
    """Counts beyond what a byte or a word holds."""
    n = r.choice([32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 99999])
    text, post = str(n), ""
    k = r.random()
    if k < .3:
        text, post = "count", "count equ %d\n" % n
    elif k < .5:
        text = "%d+%d" % (n // 2, n - n // 2)
    h = "\tprocessor 6502\n\torg 0\n"
    kind = r.choice(["one", "one", "counted", "chosen", "macro", "inner", "outer"])
    if kind == "one":
        t, img = "\trepeat %s\n\tdc.b 7\n\trepend\n" % text, b"\7" * n
    elif kind == "counted":
        t, img = "c set 0\n\trepeat %s\nc set c+1\n\trepend\n\tdc.l c\n" % text, n.to_bytes(4, "little")
    elif kind == "chosen":
        t = "c set 0\n\trepeat %s\nc set c+1\n\tif c == %d\n\tdc.b 9\n\tendif\n\trepend\n" % (text, n)
        img = b"\x09"
    elif kind == "macro":
        t, img = "\tmac mm\n\trepeat {1}\n\tdc.b 6\n\trepend\n\tendm\n\tmm %s\n" % text, b"\6" * n
    elif kind == "inner":
        t, img = "\trepeat 2\n\tdc.b 1\n\trepeat %s\n\tdc.b 2\n\trepend\n\trepend\n" % text, (b"\1" + b"\2" * n) * 2
    else:
        t, img = "\trepeat %s\n\trepeat 2\n\tdc.b 3\n\trepend\n\trepend\n" % text, b"\3" * (2 * n)
    return {"files": {"main.asm": h + t + "\tdc.b $55\n" + post}, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "many",
            "image": img.hex() + "55", "keys": [["many", kind, n, bool(post)]]}


def case(r, i, tier):
    if i % 150 == 0:
        return many(r)
    if r.random() < .12:
        w = dict(prog.DEFAULT, cond=25, repeat=20, macro=6, call=10, set=10)
        p = prog.Prog(r, size=r.choice([8, 16, 30]), weights=w, errors=r.choice([0, 0, .03]), fwd=r.choice([.1, .3]))
        return {"files": p.build(), "args": ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin"], "kind": "random", "keys": []}
    while True:
        g = G(r)
        nodes = g.block(0, r.choice([1, 2, 4, 8]))
        out = bytearray()
        try:
            g.run(nodes, {v: 0 for v in g.vars}, out, 0, "")
        except OverflowError:
            continue
        lines = g.text(nodes)
        head = ["\tprocessor 6502", "\torg $1000", "known equ 1"] + ["%s equ %d" % kv for kv in g.nconst.items()]
        head += ["%s set 0" % v for v in g.vars]
        for j, m in enumerate(g.macros):
            if m is not None:
                head += ["\tmac mc%d" % j] + m + ["\tendm"]
        if any("\tinclude" in s for m in g.macros if m for s in m):
            continue        # included files inside macros are left to the random programs
        files = dict(g.files)
        files["main.asm"] = "\n".join(head + lines + ["\tdc.b $55"] + g.post) + "\n"
        return {"files": files, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "tree", "image": bytes(out).hex() + "55",
                "keys": sorted(map(repr, g.keys))}


def judge(case, ctx, v):
    if case["kind"] == "many":
        o = common.basic(case, ctx, v)
    else:
        o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    v.count("kind " + case["kind"] + (" ok" if o.code == 0 else " refused"))
    if case["kind"] == "random":
        common.stats_seen(v, p)
        return
    for k in case["keys"]:
        v.saw(k)
    if o.code:
        v.fail("valid program refused", (o.out or b"").decode("latin-1")[-300:])
        return
    img, want = o.file("O.bin") or b"", bytes.fromhex(case["image"])
    v.count("marker bytes compared", len(want))
    if img != want:
        k = common.diffpos(img, want)
        v.fail("other lines were assembled", "at %d: %s instead of %s" % (k, img[k:k + 8].hex(), want[k:k + 8].hex()))


def need(tier):
    return {"marker bytes compared": 50000, "kind tree ok": 5000, "kind random ok": 400, "kind many ok": 40}
