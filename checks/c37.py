import re
from gen import isa, prog
from . import common
from .c23 import parse
from .c25 import WIDE

ID = "C37"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the listing and the console: messages and ECHO lines, their order and the line listed after them; model"
NOTE = ("Statements that print or fail carry a number by which they, their text and their listed line are found again, in plain "
        "code, macros, loops, conditionals and included files, with the listing on and off; the order of listed lines, messages "
        "and printed lines in random programs is compared with the reference assembler.")
RULE = "distinct (kind of text, place, hidden or listed, -l or -L, number of passes, message format) found in listings"
ASSUME = common.ASSUME
NO_MINIMISE = True

BAD = [("\tfoobar%d", 1), ("\tdc.b 256", 1), ("\thex 1g", 1), ("\tlda #256", 1), ("\tdc.b 1+", 1), ("\tlda.b $1234", 1), ("\tdc.b 1/0", 2), ("\terr", 2),
       ("\talign 0", 2), ("\tds -1", 2), ("\tincbin \"nofile\"", 2), ("\tdc.w -]", 1), ("\tdc 1,~", 1)]


def cases(tier):
    return 9000 if tier == "quick" else 90000


class G:
    def __init__(self, r):
        self.r, self.n, self.files, self.tags, self.on = r, 0, {}, {}, True

    def fresh(self):
        self.n += 1
        return self.n

    def tag(self, kind, place):
        """A statement that prints or fails, found again by its number."""
        r, k = self.r, self.fresh()
        if kind == "echo":
            t = r.choice(["\techo \"tag%d\"", "\tECHO \"tag%d\",1,\"x y\"", "\techo \"tag%d\",fwd,.", "\t.echo \"tag%d\",[77]d"]) % k
            if r.random() < .05:                # long texts, in one string or in many
                t += ",\"%s\"" % ("long text %d " % k * r.choice([15, 25, 40, 60])) if r.random() < .6 else ",\"ab\",%d" % k * r.choice([9, 12])
        else:
            t = self.bad % k if "%d" in self.bad else self.bad
        self.tags["tag%d" % k] = [kind, place, self.on]
        return t + "\t;tag%d" % k

    def block(self, depth, place, size):
        r, out = self.r, []
        for _ in range(size):
            k = r.random()
            if k < .3:
                out.append(self.tag("echo", place))
            elif k < .45:
                out.append(r.choice(["\tdc.b 1", "\tnop", "; text", "\tdc.w fwd", "l%d" % self.fresh(), "\techo", "\tds 2"]))
            elif k < .55 and depth < 3:
                out += ["\tif 1"] + self.block(depth + 1, place + "c", r.randrange(1, 3)) + ["\telse", "\techo \"dead\"", "\tendif"]
            elif k < .65 and depth < 3:
                out += ["\trepeat 1"] + self.block(depth + 1, place + "r", r.randrange(1, 3)) + ["\trepend"]
            elif k < .75 and depth < 3 and "m" not in place:
                m = "mm%d" % self.fresh()
                body = self.block(3, place + "m", r.randrange(1, 3))
                out += ["\tmac %s" % m] + body + ["\tendm", "\t%s" % m]
            elif k < .85 and depth < 3 and "m" not in place:
                n = "in%d.asm" % self.fresh()
                self.files[n] = "\n".join(self.block(depth + 1, place + "i", r.randrange(1, 4))) + "\n"
                out.append('\tinclude "%s"' % n)
            elif k < .92 and not place:
                self.on = not self.on
                out.append("\tlist %s" % ("on" if self.on else "off"))
            else:
                out.append("\tdc.b 2")
        return out


def case(r, i, tier):
    opt, fmt = r.choice(["-l", "-l", "-L"]), r.randrange(3)
    a = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin", opt + "O.lst"]
    if fmt or r.random() < .5:
        a.append("-E%d" % fmt)
    r.shuffle(a)
    if r.random() < .4:
        p = prog.Prog(r, size=r.choice([8, 20, 50]), weights=dict(prog.DEFAULT, echo=15, list=3, macro=6, call=8, include=4, cond=6), errors=r.choice([0, .1, .2]), fwd=r.choice([.1, .4]))
        f = p.build()
        if r.random() < .5:
            ls = f["main.asm"].split("\n")
            for _ in range(r.randrange(1, 4)):
                ls.insert(r.randrange(3, len(ls)), r.choice(["\thex 1g", "\tfoobar", "\tdc.b 256", "\techo \"x\",1"]))
            f["main.asm"] = "\n".join(ls)
        return {"files": f, "args": ["main.asm"] + a, "kind": "random", "opt": opt, "fmt": fmt}
    g = G(r)
    g.bad, kind = r.choice(BAD)
    lines = ["\tprocessor 6502", "\torg $1000"] + g.block(0, "", r.choice([2, 6, 15]))
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        lines += [g.tag("error", "")] + g.block(1, "", r.randrange(3))
        if kind == 2:
            break
    lines += ["fwd\tequ 5"] if r.random() < .7 or kind == 2 else ["\techo 5", "fwd\tequ .&1"]
    g.files["main.asm"] = "\n".join(lines) + "\n"
    return {"files": g.files, "args": ["main.asm"] + a, "kind": "tagged", "opt": opt, "fmt": fmt, "tags": g.tags}


def judge(case, ctx, v):
    p = common.predict(case, v)
    if p is None:
        return
    o = common.basic(case, ctx, v)
    if o is None:
        return
    if o.code != p.code:
        v.unsure("status differs")              # a matter of other properties
        return
    raw = o.file("O.lst")
    if raw is None:
        v.fail("no listing")
        return
    fmt, out = case["fmt"], (o.out or b"").decode("latin-1")
    items = parse(raw)
    starts = [k for k, it in enumerate(items) if it[0] == "head" and it[2] == 1]
    if not starts:
        v.fail("no pass in the listing")
        return
    lines = raw.decode("latin-1").split("\n")
    got = [(it, lines[starts[-1] + k].rstrip()) for k, it in enumerate(items[starts[-1]:]) if it[0] != "head"]
    got = [x for x in got if x[1] != "Aborting assembly"]
    want = []
    for e in p.listlog:
        if e[0] == "error":
            t = (WIDE[fmt] % ((e[2], e[1]) if fmt == 1 else (e[1], e[2])) if e[1] is not None else "") + e[3]
            want += [("text", x.rstrip()) for x in t.split("\n")]
            if p.code and t not in out:
                v.fail("message is worded differently on the console", t[:200])
                return
        elif e[0] == "echo":
            want.append(("text", e[1].rstrip()))
            if p.code == 0 and e[1] + "\n" not in out:
                v.fail("ECHO line missing on the console", e[1][:200])
                return
        else:
            want.append(e)
    same = [(g[1] == w[1]) if w[0] == "text" else (g[0][0] == "rec" and g[0][1] == w[1]) for g, w in zip(got, want)]
    if not all(same) or len(got) != len(want):
        k = same.index(False) if False in same else len(same)
        v.fail("listing has other texts or another order", "%s instead of %s after %s" % (got[k:k + 2], want[k:k + 2], want[max(0, k - 2):k]))
        return
    n = sum(1 for e in p.listlog if e[0] == "error")
    v.count("errors found", n)
    v.count("ECHO lines found", sum(1 for e in p.listlog if e[0] == "echo"))
    v.count("listings %s status %s" % (case["opt"], "0" if not p.code else "not 0"))
    v.saw(case["kind"], case["opt"], p.code, min(p.passes, 4), min(n, 5), fmt)
    if case["kind"] != "tagged":
        return
    # found by their numbers, without the model
    L = items[starts[-1]:]
    for tag, (kind, place, on) in case["tags"].items():
        recs = [k for k, it in enumerate(L) if it[0] == "rec" and re.search(r";%s$" % tag, it[7].rstrip())]
        if "m" in place:
            recs = recs[1:]                     # the definition comes first
        if kind == "echo":
            at = [k for k, it in enumerate(L) if it[0] == "text" and re.match(r" %s( |$)" % tag, it[1])]
        else:
            at = [k - 1 for k in recs if k and L[k - 1][0] == "text"]
        if p.code == 0 and kind == "echo" and len(at) != 1:
            v.fail("ECHO line stands %d times in the listing" % len(at), tag)
            return
        if kind == "echo" and on and at and recs and at[0] + 1 != recs[-1] and p.code == 0 and "m" not in place:
            v.fail("ECHO line is not before the line of its statement", "%s %s %s" % (tag, at, recs))
            return
        if kind == "error" and on and recs and not at:
            v.fail("no message before the line of the bad statement", tag)
            return
        v.saw("tagged", kind, place, on, case["opt"], min(p.passes, 3), fmt, p.code != 0)
        v.count("tagged %s %s" % (kind, "listed" if on else "hidden"))


def need(tier):
    return {"errors found": 3000, "ECHO lines found": 10000, "tagged echo listed": 5000, "tagged echo hidden": 1000, "tagged error listed": 1000,
            "listings -L status 0": 300, "listings -l status not 0": 500}
