import re
from gen import isa, prog
from . import common

ID = "C25"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the console and the listing: every positioned message parsed and matched with the planted place; model"
NOTE = ("Bad statements are planted at known lines of main and included files, in macros called from known lines, in "
        "REPEAT and conditional blocks, after comments and in later passes; the list of (file, line) in the messages, "
        "parsed in the format -E asks for, must be exactly the planted one, in random programs the model's.")
RULE = "distinct (place, error, message format, way of ending, number of passes) message lists compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

PAT = {0: re.compile(r"^(\S+) \((\d+)\): error: "), 1: re.compile(r"^line +(\d+) (\S+) +"), 2: re.compile(r"^(\S+?):(\d+): error: ")}
WIDE = {0: "%s (%d): error: ", 1: "line %7d %-10s ", 2: "%s:%d: error: "}


def cases(tier):
    return 20000 if tier == "quick" else 120000


BAD = ["\tdc.b 256", "\tfoobar 12", "\tdc.b 1+", "\tdc ~", "\thex 1g", "\tdc.b 1/0", "\terr", "\tdc 1 2", "\talign 0", "\tincbin \"nofile\"", "\tprocessor 6510",
       "\tds -1", "\tdc ]", "\tlda #256", "\tlda.b $1234", "\tsta #1", "\tbne .+300", "\tdc.w `", "\tlda ($12,y)", "\tlda #1,x", "\tldx.wx $12",
       "\tinx.w 5", "\tjmp #5", "\tincbin \"main.asm\",nowhere", "\torg $5000,nowhere",
       "\tdc.b nowhere", "\tdc.b [3", "\tsta.b $100,x", "\tlda.b 256", "\tdc.b 'ab", "\tinclude", "\tm_no 1",
       "\tdc.b 0" + ",0" * 700]


class G:
    def __init__(self, r):
        self.r, self.files, self.want, self.n, self.macros = r, {}, [], 0, []

    def filler(self, k):
        r = self.r
        out = []
        for _ in range(k):
            out += r.choice([["\tdc.b 1"], [""], ["; text"], ["/* one", "two", "three */"], ["\tif 0", "\tfoobar", "\telse", "\tdc.b 2", "\tendif"],
                             ["\trepeat 3", "\tdc.b 3", "\trepend"], ["\tdc.b 1 /* x", " y */"], ["gl%d" % self.fresh()], ["\techo \"m\""],
                             [r.choice(["", "\tdc.b 4 "]) + "; " + "long text " * r.choice([90, 101, 102, 103, 150, 300])]])
        return out

    def fresh(self):
        self.n += 1
        return self.n

    def emit(self, name, level, plant):
        """Lines of a file; the planted statement is reached from it when plant is set."""
        r = self.r
        lines = self.filler(r.randrange(5))
        if plant:
            k = r.random()
            bad = self.bad
            if .55 <= k < .75 and len(bad) > 1000:
                k = 0                   # reported where it is read, not where the macro is called
            if k < .35 or level > 3:
                lines.append(bad + r.choice(["", "\t; note"]))
                self.want.append([name, len(lines)])
                self.place += "d"
            elif k < .55:
                sub = r.choice(["in%d.asm", "a_long_name_of_a_file_%d.inc", "a_name_" + "longer_" * r.randrange(1, 25) + "%d.inc", "i%d.h"]) % self.fresh()
                lines.append('\tinclude "%s"' % sub)
                self.files[sub] = "\n".join(self.emit(sub, level + 1, True)) + "\n"
                self.place += "i"
            elif k < .75:
                m = "mm%d" % self.fresh()
                inner = None
                if r.random() < .4:
                    inner = "mn%d" % self.fresh()
                    lines += ["\tmac %s" % inner] + self.filler(r.randrange(2)) + [bad, "\tendm"]
                lines += ["\tmac %s" % m] + [l for l in self.filler(r.randrange(3)) if not l.startswith("gl")] + ["\t" + inner if inner else bad, "\tendm"]
                lines += self.filler(r.randrange(3))
                lines.append("\t" + m)
                self.want.append([name, len(lines)])
                self.place += "m" + ("n" if inner else "")
            elif k < .8:                # a file included from a macro
                sub = "im%d.asm" % self.fresh()
                m = "mi%d" % self.fresh()
                lines += ["\tmac %s" % m] + [l for l in self.filler(r.randrange(2)) if not l.startswith("gl")] + ['\tinclude "%s"' % sub, "\tendm"]
                lines += self.filler(r.randrange(2)) + ["\t" + m]
                self.files[sub] = "\n".join(self.emit(sub, level + 1, True)) + "\n"
                self.place += "M"
            elif k < .87:
                lines.append("\trepeat 1")
                lines += [l for l in self.filler(r.randrange(2)) if not l.startswith("gl")]
                lines.append(bad)
                self.want.append([name, len(lines)])
                lines.append("\trepend")
                self.place += "r"
            else:
                lines.append("\tif 1")
                lines.append(bad)
                self.want.append([name, len(lines)])
                lines.append("\tendif")
                self.place += "c"
            lines += self.filler(r.randrange(4))
        return lines


def case(r, i, tier):
    fmt = r.randrange(3)
    opts = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if fmt or r.random() < .5:
        opts.append("-E%d" % fmt)
    if r.random() < .3:
        opts.append(r.choice(["-lO.lst", "-LO.lst"]))
    if r.random() < .5:
        p = prog.Prog(r, size=r.choice([5, 15, 40]), errors=.15, fwd=r.choice([.1, .3]), weights=dict(prog.DEFAULT, macro=8, call=10, include=5, repeat=5))
        f = p.build()
        if r.random() < .5:             # more than one error
            ls = f["main.asm"].split("\n")
            for _ in range(r.randrange(1, 4)):
                ls.insert(r.randrange(3, len(ls)), r.choice(BAD[:5]))
            f["main.asm"] = "\n".join(ls)
        return {"files": f, "args": ["main.asm"] + opts, "kind": "random", "fmt": fmt}
    if r.random() < .06:                # definitions of a macro, in several files
        g = G(r)
        names = ["main.asm"] + ["x%d.h" % k for k in range(r.randrange(3))]
        macros = r.sample(["mm", "Mover", "m_3", "b"], 2)
        for k, n in enumerate(names):
            lines = ["\tprocessor 6502", "\torg $1000"] if n == "main.asm" else []
            for _ in range(r.randrange(1, 4)):
                lines += g.filler(r.randrange(3))
                m = r.choice(macros)
                lines += [r.choice(["\tmac %s", "\tMACRO %s", "%s\tmac"][:2]) % r.choice([m, m.upper()]), "\tdc.b 1", "\tendm"]
                if r.random() < .3:
                    lines[-3:] = ["\tif %d" % r.randrange(2)] + lines[-3:] + ["\tendif"]
            if k + 1 < len(names):
                lines.insert(r.choice([len(lines), 2 * (k == 0)]), '\tinclude "%s"' % names[k + 1])
            g.files[n] = "\n".join(lines) + "\n"
        if r.random() < .8:
            opts.append("-S")
        return {"files": g.files, "args": ["main.asm"] + opts, "kind": "redefined", "fmt": fmt, "place": "".join(names)}
    if r.random() < .01:                # line numbers of five and six digits
        k = r.choice([9998, 32766, 65533, 65534, 65535, 70000, 99997, 131072])
        bad = r.choice(BAD[:12])
        t = ("\n" * k if r.random() < .5 else "; text\n" * k) + bad + "\n"
        files, want = {"main.asm": "\tprocessor 6502\n\torg $1000\n" + t}, ["main.asm", k + 3]
        if r.random() < .3:
            files, want = {"main.asm": '\tprocessor 6502\n\torg $1000\n\tinclude "x.h"\n', "x.h": t}, ["x.h", k + 1]
        return {"files": files, "args": ["main.asm"] + opts, "kind": "planted", "fmt": fmt, "want": [want], "place": "far", "bad": bad}
    if r.random() < .06:                # a program that never settles: the end of the passes belongs to no line
        n = r.randrange(2, 14)
        lines = ["\tprocessor 6502", "\torg $1000"] + ["\tdc.b 1"] * r.randrange(4) + ["\tds [osc+1]&1"] * r.choice([1, 1, 3]) + ["\tnop"] * (2 * r.randrange(3))
        lines += ["osc"] + ["; text"] * r.randrange(3)
        bad = r.choice(["", "\tfoobar 12", "\thex 1g"])
        if bad:
            lines.insert(r.randrange(2, len(lines)), bad)
        want = [["main.asm", k + 1] for k, l in enumerate(lines) if l == bad or l == "osc"]
        return {"files": {"main.asm": "\n".join(lines) + "\n"}, "args": ["main.asm", "-P%d" % n] + opts, "kind": "endless", "fmt": fmt, "want": want,
                "place": "e", "bad": bad}
    g = G(r)
    g.bad, g.place = r.choice(BAD), ""
    lines = ["\tprocessor 6502", "\torg $1000", "lab0"]
    sub = g.emit("main.asm", 1, True)
    off = len(lines)
    for w in g.want:
        if w[0] == "main.asm":
            w[1] += off
    lines += sub
    if r.random() < .4:
        lines.append("\tdc.b fw0\nfw0 equ 3")
    g.files["main.asm"] = "\n".join(lines) + "\n"
    return {"files": g.files, "args": ["main.asm"] + opts, "kind": "planted", "fmt": fmt, "want": g.want, "place": g.place, "bad": g.bad}


def found(text, fmt):
    res = []
    for l in text.decode("latin-1").split("\n"):
        m = PAT[fmt].match(l)
        if m:
            res.append((m.group(2), int(m.group(1))) if fmt == 1 else (m.group(1), int(m.group(2))))
    return res


def judge(case, ctx, v):
    p = common.predict(case, v)
    if p is None:
        return
    o = common.basic(case, ctx, v)
    if o is None:
        return
    if (o.code == 0) != (p.code == 0):
        v.unsure("status differs")              # a matter of other properties
        return
    fmt = case["fmt"]
    got = found(o.out or b"", fmt)
    if o.code == 0:
        if got:
            v.fail("error messages of a repeated pass are shown", str(got[:3]))
        v.count("successes without messages")
        return
    want = [(f, l) for f, l, _, _ in p.errors if f is not None]
    v.count("failures -E%d" % fmt)
    v.count("messages matched", len(want))
    v.saw(case["kind"], fmt, p.code, min(p.passes, 4), len(want), case.get("place"), case.get("bad"))
    other = [x for f in PAT if f != fmt for x in found(o.out or b"", f)]
    if other:
        v.fail("message in another format than -E%d" % fmt, str(other[:3]))
        return
    if got != want:
        v.fail("messages name other places", "%s instead of %s" % (got[:6], want[:6]))
        return
    text = (o.out or b"").decode("latin-1")
    for f, l in want[:3]:
        s = WIDE[fmt] % ((l, f) if fmt == 1 else (f, l))
        if s not in text:
            v.fail("message does not have the format -E%d" % fmt, s)
            return
    lst = o.file("O.lst")
    if lst is not None:
        if "-LO.lst" not in case["args"] and found(lst, fmt)[-len(want) or len(want):] != want:
            v.fail("messages in the listing name other places", "%s instead of %s" % (found(lst, fmt)[:6], want[:6]))
            return
        v.count("listings with messages")
    if case["kind"] == "planted":
        places = sorted(set(map(tuple, case["want"])))
        if want and sorted(set(got)) != places:
            v.fail("message does not name the planted place", "%s instead of %s" % (sorted(set(got)), places))
        v.count("planted places")
        if case["place"] == "far":
            v.count("planted in far lines")
    if case["kind"] == "redefined":
        v.count("macros defined again")
    if case["kind"] == "endless":
        v.count("programs that do not settle")


def need(tier):
    return {"planted places": 2000, "programs that do not settle": 100, "planted in far lines": 30, "macros defined again": 100, "messages matched": 5000, "failures -E0": 800, "failures -E1": 800, "failures -E2": 800, "listings with messages": 500}
