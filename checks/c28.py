from gen import isa, prog
from . import common

ID = "C28"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the console: every printed line against the generator's list of reached ECHOs and the model's"
NOTE = ("ECHO with numbers, strings, symbols and conversions is put in plain code, macros, loops, conditionals and included "
        "files of programs that take one or several passes; standard output must consist of exactly the expected lines in "
        "order. ERR in live and dead places decides the exit status.")
RULE = "distinct (argument kinds, place, number of passes, length class) of printed lines, and (ERR place) outcomes"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 18000 if tier == "quick" else 120000


class G:
    def __init__(self, r):
        self.r, self.lines, self.post, self.want, self.keys, self.n, self.files = r, [], [], [], set(), 0, {}
        self.pc = 0x1000

    def fresh(self):
        self.n += 1
        return self.n

    def item(self, place):
        """(text, expected)"""
        r = self.r
        k = r.random()
        v = r.choice([0, 1, 9, 10, 255, 256, 65535, 0x12345678, 0x7fffffff, 0xffffffff, 0x100000000, -1, -255, r.randrange(1 << 20)])
        h = "$%x" % (v & 0xffffffffffffffff)
        if k < .25:
            self.keys.add(("number", place, len(h)))
            return str(v), h
        if k < .55:
            n = r.choice([0, 1, 2, 5, 12, 40, 200, 400]) if r.random() < .3 else r.randrange(1, 12)
            s = "".join(r.choice("abcXYZ 019_.;/*-+%s\\" if r.random() < .5 else "ab%dx% ") for _ in range(n))
            self.keys.add(("string", place, min(n, 50), "%" in s))
            return '"%s"' % s, s
        if k < .65:
            self.keys.add(("conversion", place))
            return "[%d]d" % v, str(v)
        if k < .75:
            n = "k%d" % self.fresh()
            self.lines.insert(self.at, "%s equ %d" % (n, v))
            self.at += 1
            self.keys.add(("symbol", place))
            return n, h
        if k < .85:
            n = "f%d" % self.fresh()
            self.post.append("%s equ %d" % (n, v))
            self.lines.append("\tdc.l %s" % n if abs(v) < 1 << 32 and v >= 0 else "\tdc.l %s&$ffff" % n)
            self.pc += 4
            self.keys.add(("forward", place))
            return n, h
        if k < .9:
            n = "s%d" % self.fresh()
            self.lines.insert(self.at, '%s set "text%d"' % (n, self.n))
            self.at += 1
            self.keys.add(("string symbol", place))
            return n, "text%d" % self.n
        self.keys.add(("expression", place))
        return "%d+%d" % (v, 3), "$%x" % (v + 3 & 0xffffffffffffffff)

    def echo(self, place, most=4):
        r = self.r
        its = [self.item(place) for _ in range(r.randrange(1, most))]
        if r.random() < .03:
            its = [("%d" % k, "$%x" % k) for k in range(r.choice([20, 40, 60]))]
            self.keys.add(("many", len(its), place))
        t = ",".join(a for a, b in its)
        if len(t) > 900:
            return "\techo 7", " $7"
        return "\t" + r.choice(["echo", "ECHO", ".echo"]) + " " + t, "".join(" " + b for a, b in its)

    def stmt(self):
        r = self.r
        k = r.random()
        if k < .3:
            t, w = self.echo("plain")
            self.lines.append(t)
            self.want.append(w)
        elif k < .4:
            m = "em%d" % self.fresh()
            t, w = self.echo("macro", 3)
            self.lines += ["\tmac %s" % m, t + ',"<",{1}', "\tendm"]
            for _ in range(r.randrange(0, 3)):
                a = r.randrange(1000)
                self.lines.append("\t%s %d" % (m, a))
                self.want.append(w + " < $%x" % a)
        elif k < .5:
            n = r.randrange(0, 5)
            c = "c%d" % self.fresh()
            self.lines += ["%s set 10" % c, "\trepeat %d" % n, "\techo \"i\",%s,[%s]d" % (c, c), "%s set %s+1" % (c, c), "\trepend"]
            self.want += [" i $%x %d" % (10 + j, 10 + j) for j in range(n)]
            self.keys.add(("loop", n))
        elif k < .65:
            c = r.random() < .5
            t1, w1 = self.echo("if")
            t2, w2 = self.echo("if")
            self.lines += ["\tif %d" % c, t1, "\telse", t2, "\tendif"]
            self.want.append(w1 if c else w2)
        elif k < .72:
            n = "i%d.asm" % self.fresh()
            t, w = self.echo("include")
            self.files[n] = t + "\n"
            self.lines.append('\tinclude "%s"' % n)
            self.want.append(w)
        elif k < .8:
            self.lines.append(r.choice(["\tmac u%d\n\techo 1\n\terr\n\tendm" % self.fresh(), "\trepeat 0\n\techo 2\n\terr\n\trepend", "\tif 0\n\terr\n\techo 3\n\tendif"]))
            self.keys.add("dead")
        elif k < .85:
            self.lines.append("\techo .")
            self.want.append(" $%x" % self.pc)
        else:
            self.lines.append("\tdc.b 1")
            self.pc += 1


def case(r, i, tier):
    opts = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if r.random() < .25:
        opts.append(r.choice(["-lO.lst", "-LO.lst", "-sO.sym"]))
    if r.random() < .3:
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=dict(prog.DEFAULT, echo=25), errors=r.choice([0, 0, .05]), fwd=r.choice([.1, .4]))
        return {"files": p.build(), "args": ["main.asm"] + opts, "kind": "random", "keys": []}
    g = G(r)
    g.lines = ["\tprocessor 6502", "\torg $1000"]
    g.at = 2
    for _ in range(r.choice([1, 4, 10, 25])):
        g.stmt()
    err = None
    if r.random() < .15:
        err = r.choice(["\terr", "\tERR", "\t.err", "lab\terr", "\tif 1\n\terr\n\tendif", "\trepeat 1\n\terr\n\trepend", "\tmac qq\n\terr\n\tendm\n\tqq", "\tif 0\n\telse\n\terr\n\tendif"])
        g.lines.append(err)
    g.files["main.asm"] = "\n".join(g.lines + g.post) + "\n"
    return {"files": g.files, "args": ["main.asm"] + opts, "kind": "direct", "want": g.want, "err": err, "keys": sorted(map(repr, g.keys))}


def judge(case, ctx, v):
    o = common.basic(case, ctx, v)
    if o is None:
        return
    p = common.predict(case, v)
    out = (o.out or b"").decode("latin-1")
    if case["kind"] == "direct":
        if case["err"]:
            v.count("ERR reached")
            v.saw("err", case["err"])
            if o.code != 17:
                v.fail("ERR does not fail the assembly", "status %d" % o.code)
            elif not any("forward" in k for k in case["keys"]):
                want = "".join(w + "\n" for w in case["want"])
                v.count("lines before ERR", len(case["want"]))
                if not out.startswith(want) or out[len(want):].startswith(" "):
                    v.fail("not the lines of the ECHOs before ERR", "%r instead of %r" % (out[:200], want[:200]))
            return
        if o.code:
            v.fail("valid program with ECHO refused", out[-300:])
            return
        want = "".join(w + "\n" for w in case["want"]) + "\nComplete. (0)\n"
        v.count("lines expected", len(case["want"]))
        v.count("passes %s" % (p.passes if p else "?"))
        for k in case["keys"]:
            v.saw(k, p.passes if p else 0)
        if out != want:
            a, b = out.split("\n"), want.split("\n")
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            v.fail("console differs from the ECHOs that were reached", "line %d: %r instead of %r (%d, %d lines)" % (k, a[k:k + 1], b[k:k + 1], len(a), len(b)))
    elif p is not None:
        if (o.code == 0) != (p.code == 0):
            v.unsure("status differs")
            return
        if p.code == 0 and not p.puts:
            v.count("random lines expected", p.msgs.count("\n"))
            v.saw("random", p.passes, min(p.msgs.count("\n"), 20))
            if out != p.msgs + "\nComplete. (0)\n":
                v.fail("console differs from the model's ECHOs", "%r instead of %r" % (out[:200], p.msgs[:200]))


def need(tier):
    return {"lines expected": 15000, "random lines expected": 3000, "ERR reached": 500, "lines before ERR": 1000, "passes 2": 1000}
