import re
from gen import isa, prog
from . import common

ID = "C21"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "interpreter of generated assignment sequences compared with probes in the output and the symbol dump; model"
NOTE = ("Sequences of EQU, SET, EQM, SETSTR, SETSYM, labels and SET with arguments, -D and -M, each followed by probes "
        "that emit the current values, in loops and macros too; the expected bytes come from a small interpreter and "
        "the reference assembler. A second, different EQU must fail.")
RULE = "distinct (statement kind, previous kind of the symbol, place) whose effect was probed"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 18000 if tier == "quick" else 120000


class G:
    def __init__(self, r):
        self.r = r
        self.env = {}           # name -> ('num', v) ('str', t) ('eqm', fn, text)
        self.kind = {}
        self.lines = []
        self.image = bytearray()
        self.opts = []
        self.keys = set()
        self.labels = {}
        self.minus = {}
        self.fail = False
        self.long = 0
        self.pinned = set()     # used by an EQM: stays a number

    def value(self, n):
        e = self.env[n]
        if e[0] == "num":
            return e[1]
        if e[0] == "eqm":
            return e[1]()
        return None

    def nums(self):
        return [n for n, e in self.env.items() if e[0] in ("num", "eqm")]

    def expr(self, pure=None):
        """(text, thunk)"""
        r = self.r
        ns = [n for n in self.nums() if self.env[n][0] == "num" and len(n) < 60]
        k = r.random()
        if not ns or k < .4:
            v = r.choice([0, 1, 5, 255, 256, 65535, 100000, -1, -300])
            return str(v), lambda: v
        a = r.choice(ns)
        if k < .6:
            d = r.randrange(1, 300)
            return "%s+%d" % (a, d), lambda: self.value(a) + d
        b = r.choice(ns)
        if k < .8:
            return "%s-%s" % (a, b), lambda: self.value(a) - self.value(b)
        if k < .9:
            return "[%s&$ff]*3" % a, lambda: (self.value(a) & 0xff) * 3
        return a, lambda: self.value(a)

    def probe(self, n):
        e = self.env[n]
        if e[0] == "str":
            self.lines.append("\tdc.b %s" % n)
            self.image += e[1].encode()
        else:
            self.lines.append("\tdc.l %s" % n)
            self.image += (self.value(n) & 0xffffffff).to_bytes(4, "little")

    def free(self, p="s"):
        r = self.r
        for _ in range(50):
            n = r.choice(["%s%d", "%s_%d", "%sX%d", "%s.%d"]) % (p, r.randrange(1000))
            if n not in self.env:
                return n
        raise RuntimeError

    def step(self):
        r = self.r
        k = r.random()
        settable = [n for n in self.env if self.kind.get(n) == "set"]
        if k < .25:
            n = r.choice(settable) if settable and r.random() < .6 else self.free()
            t, f = self.expr()
            v = f()
            if abs(v) > 1 << 40:
                t, v = "7", 7
            self.keys.add(("set", self.env.get(n, ("new",))[0]))
            self.lines.append("%s\t%s\t%s" % (n, r.choice(["set", "SET", ".set"]), t))
            self.env[n] = ("num", v)
            self.kind[n] = "set"
        elif k < .4:
            n = self.free("e")
            t, f = self.expr()
            v = f()
            eq = [m for m in self.env if self.kind.get(m) == "equ"]
            if eq and r.random() < .3:
                n = r.choice(eq)
                if r.random() < .8:
                    t, v = str(self.env[n][1]), self.env[n][1]
                    self.keys.add("equ again")
                elif v != self.env[n][1]:
                    if r.random() < .5:         # one bit is enough
                        v = self.env[n][1] ^ 1 << r.choice([0, 1, 7, 8, 15, 16, 31, 32, 40, 62])
                        t = str(v)
                    self.fail = True
                    self.keys.add("equ different")
            self.lines.append("%s\t%s\t%s" % (n, r.choice(["equ", "EQU", "=", ".equ"]), t) if r.random() < .8 else "%s=%s" % (n, t))
            if not self.fail:
                self.env[n] = ("num", v)
                self.kind[n] = "equ"
            self.keys.add("equ")
        elif k < .5:
            n = self.free("m")
            t, f = self.expr()
            if r.random() < .1:         # a long text
                t = "[%s]" % t
                end = r.choice([100, 255, 256, 257, 300, 512, 700, 900])
                while len(t) < end:
                    t += r.choice(["+0", "-00", "+1-1", "+$0000", "-%0"])
                self.keys.add("long eqm")
            self.lines.append("%s\teqm\t%s" % (n, t))
            self.pinned |= {m for m in self.env if m in t}
            self.env[n] = ("eqm", f, t)
            self.kind[n] = "eqm"
            self.keys.add("eqm")
        elif k < .6:
            loose = [n for n in settable if n not in self.pinned]
            n = r.choice(loose) if loose and r.random() < .4 else self.free("t")
            t = r.choice(["hello", "a_b", "Foo", "x9"] + [m for m in self.env if len(m) < 60][:5])
            self.keys.add(("setstr", self.env.get(n, ("new",))[0]))
            if r.random() < .6:
                self.lines.append("%s\tsetstr\t%s" % (n, t))
            else:
                self.lines.append('%s\tset\t"%s"' % (n, t))
            self.env[n] = ("str", t)
            self.kind[n] = "set"
        elif k < .7:
            pool = [n for n in self.nums() if self.env[n][0] == "num"]
            if not pool:
                return
            a, s, n = r.choice(pool), self.free("w"), self.free("y")
            self.lines += ["%s\tsetstr\t%s" % (s, a), "%s\tsetsym\t%s" % (n, s)]
            self.env[s] = ("str", a)
            self.env[n] = ("num", self.value(a))
            self.kind[s] = self.kind[n] = "set"
            self.keys.add("setsym")
        elif k < .85:
            b = self.free("d") + "_"
            parts, text = b, b
            for _ in range(r.randrange(1, 4)):
                q = r.random()
                small = [n for n in self.nums() if (0 <= self.value(n) or r.random() < .1) and self.env[n][0] == "num" and len(n) < 60]
                if q < .35:
                    v = r.choice([r.randrange(500), r.randrange(500), r.choice([0x7fffffff, 0x80000000, 0xffffffff, 4294967301, 1 << 62, -1, -70000, -5000000000])])
                    parts, text = parts + str(v), text + ",%d" % v
                elif q < .45:
                    v, d = r.randrange(500), r.randrange(1, 9)
                    parts, text = parts + str(v + d), text + ",%d+%d" % (v, d)
                elif q < .7 and small:
                    n = r.choice(small)
                    parts, text = parts + str(self.value(n)), text + "," + n
                else:
                    w = r.choice(["ab", "Q", "z_9"]) * r.choice([1, 1, 1, 1, 1, 1, 1, 1, 30, 90, 140, 200])
                    parts, text = parts + w, text + ',"%s"' % w
            if parts in self.env or parts in self.minus or len(text) > 900:
                return
            form = r.choice(["", "", ":", "\tdc.b 1", ": dc.b 1", "\tequ %d", " = %d", "=%d", "\tset\t%d"])
            v = 0x1000 + len(self.image)
            self.kind[parts] = "label"
            if "%" in form:
                v = r.choice([0, 9, 300, -4])
                self.kind[parts] = "set" if "set" in form else "equ"
                form = form % v
            elif "dc" in form:
                self.image.append(1)
            self.lines.append(text + form)
            if "-" in parts:        # cannot be used in an expression, only seen in the symbol file
                self.minus[parts] = v
                self.keys.add("negative argument")
                return
            self.env[parts] = ("num", v)
            self.labels[parts] = text
            self.keys.add(("after arguments", form.split("%")[0][:4]))
            self.keys.add(("dyn", text.count(","), '"' in text, len(text) // 100))
            self.long += len(text) > 300
        elif k < .95 and self.labels:
            n = r.choice(sorted(self.labels))
            if not all(c.isalnum() or c in ',_"' for c in self.labels[n].replace(".", "x")):
                return
            # re-evaluate the arguments now: only usable if they still give the same name
            parts = self.labels[n].split(",")
            name = parts[0]
            for a in parts[1:]:
                if a[0] == '"':
                    name += a[1:-1]
                elif a.isdigit():
                    name += str(int(a))
                else:
                    v = self.value(a)
                    if v is None or v < 0:
                        return
                    name += str(v)
            if name not in self.env or self.env[name][0] != "num":
                return
            m = self.free("g")
            self.lines.append("%s\tset\t%s" % (m, self.labels[n]))
            self.env[m] = ("num", self.value(name))
            self.kind[m] = "set"
            self.keys.add("set with arguments")
        else:
            self.lines.append("\tdc.b 1")
            self.image.append(1)


def case(r, i, tier):
    k0 = r.random()
    if k0 < .12:
        w = dict(prog.DEFAULT, set=20, equ=20, eqm=12, setstr=8, setsym=8, dyn=10, instr=8)
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w, errors=r.choice([0, 0, .03]), fwd=r.choice([.1, .4]))
        return {"files": p.build(), "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"], "kind": "random", "keys": []}
    if k0 < .2:
        t = r.choice([
            "a equ b\nb equ 5\n\tdc.b a\n", "a set 1\n\tdc.b a\na set 2\n\tdc.b a\n", "a eqm b+1\nb set 4\n\tdc.b a\nb set 9\n\tdc.b a\n",
            "a eqm .\n\tdc.w a\n\tdc.w a\n", "a equ 1\na set 2\n\tdc.b a\n", "a set 1\na equ 2\n\tdc.b a\n", "a set 1\na equ 1\n\tdc.b a\n", "a\na equ 5\n",
            "a equ $1000\n\torg $1000\na\n\tdc.b 1\n", "a eqm a+1\n\tdc.b a\n", "a eqm b\nb eqm a\n\tdc.b a\n", "a equ a+1\n\tdc.b a\n",
            "\tdc.b a\na set 3\n\tdc.b a\na set 4\n", "c set 0\n\trepeat 4\nc set c+1\n\tdc.b c\n\trepend\n", "c set 0\n\trepeat 3\nc set c+1\nl_,c\n\tdc.w l_1\n\trepend\n",
            "s setstr abc\n\tdc.b s\ns set 5\n\tdc.b s\n", "s set \"abc\"\n\tdc.l s+0\n", "q set 7\ns setstr q\nz setsym s\nq set 8\n\tdc.b z,q\n",
            "z setsym nosuch\n\tdc.b 1\n", "s setstr nosuch\nz setsym s\n\tdc.b z\n", "l_,nosuch\n\tdc.b 1\n", "l_,5\nl_,5\n", "l_,5\n\tdc.b 1\nl_,5\n", "l_,2+3\n\tdc.w l_5\n",
            "l_,k\nk equ 4\n\tdc.w l_4\n", "k equ 4\nl_,k,\"x\",k\n\tdc.w l_4x4\nv set l_,k,\"x\",k\n\tdc.w v\n", "n equ 5\nm = n\no=m\n\tdc.b o\n", "n equ 3\nl_,n equ 7\nl_,n+1 = 8\nl_,n+2=9\nl_,n+3: dc.b 2\nl_,n+4\tdc.b 3\n\tdc.b l_3,l_4,l_5\n\tdc.w l_6,l_7\n", "m = 5 == 5\n\tdc.b m\n",
            "a set 1\n\tmac mm\na set a+{1}\n\tdc.b a\n\tendm\n\tmm 2\n\tmm 3\n\tdc.b a\n", "a equ 1/0\n", "a eqm 1/0\n\tdc.b 1\n", "a eqm 1/0\n\tdc.b a\n"])
        opts = []
        if r.random() < .3:
            opts = r.choice([["-Da=3"], ["-Db=5"], ["-Ma=b+1"], ["-Dk=4"], ["-Ds"], ["-Dq=1+2*3"], ["-Dnosuch=9"], ["-Ma=b", "-Db=7"]])
        return {"files": {"main.asm": "\tprocessor 6502\n\torg $1000\n" + t + "\tdc.b $55\n"},
                "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"] + opts, "kind": "fixed", "keys": [t, opts]}
    if k0 < .25:                    # one name defined in several ways
        t, names = "", r.sample(["a", "Sym", "x_1", "lab"], 2)
        for _ in range(r.randrange(2, 6)):
            n = r.choice(names)
            val = r.choice(["5", "5", "5", "$1000", ".", "6", "7-2", '"ab"', names[0], names[1] + "+1", "$1001"])
            t += r.choice(["{n}\n", "{n}\tdc.b 1\n", "{n}\tequ\t{v}\n", "{n} = {v}\n", "{n}\tset\t{v}\n", "{n}\teqm\t{v}\n", "{n}\tsetstr\tuv\n", "\tdc.w {n}\n", "\tdc.b <{n}\n",
                           "\tifconst {n}\n\tdc.b 2\n\tendif\n"]).format(n=n, v=val)
        opts = ["-%s%s=%s" % (r.choice("DM"), r.choice(names), r.choice(["5", "6", "$1000"]))] if r.random() < .2 else []
        return {"files": {"main.asm": "\tprocessor 6502\n\torg $1000\n" + t + "\tdc.b $55\n"},
                "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"] + opts, "kind": "mixed", "keys": [re.sub("Sym|x_1|lab", "a", t)]}
    g = G(r)
    for _ in range(r.randrange(0, 4)):
        n = g.free("c")
        if r.random() < .7:
            v = r.choice([0, 1, 77, 65536, -5])
            form = r.choice(["-D%s=%d", "-D%s=$%x", "-D%s=%d+1"]) if v >= 0 else "-D%s=%d"
            if r.random() < .2:
                g.opts.append("-D%s" % n)
                v = 0
            else:
                g.opts.append(form % (n, v))
                v += form.endswith("+1")
            g.env[n] = ("num", v)
            g.kind[n] = "cmd"
            g.keys.add("-D")
        else:
            others = [m for m in g.env if g.env[m][0] == "num"]
            if others and r.random() < .6:
                a = r.choice(others)
                g.opts.append("-M%s=%s+2" % (n, a))
                g.env[n] = ("eqm", lambda a=a: g.value(a) + 2, "")
            else:
                g.opts.append("-M%s=40+2" % n)
                g.env[n] = ("eqm", lambda: 42, "")
            g.kind[n] = "eqm"
            g.keys.add("-M")
    for _ in range(r.choice([3, 8, 20])):
        g.step()
        if g.fail:
            break
        for n in r.sample(sorted(g.env), min(len(g.env), r.randrange(3))):
            g.probe(n)
    if not g.fail:
        for n in sorted(g.env):
            g.probe(n)
    post = ""
    if r.random() < .3:             # a second pass must not change anything
        g.lines.append("\tdc.b later9")
        g.image.append(9)
        post = "later9 equ 9\n"
    want = {n: g.value(n) & 0xffffffffffffffff for n in g.env if g.env[n][0] == "num"}
    want.update({n: w & 0xffffffffffffffff for n, w in g.minus.items()})
    return {"files": {"main.asm": "\tprocessor 6502\n\torg $1000\n" + "\n".join(g.lines) + "\n\tdc.b $55\n" + post},
            "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"] + g.opts, "kind": "steps", "fail": g.fail, "want": want,
            "image": (bytes(g.image) + b"").hex(), "long": g.long, "keys": sorted(map(repr, g.keys))}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    v.count("kind " + case["kind"] + (" ok" if o.code == 0 else " refused"))
    if p.code == 0:
        common.check_symbols(o, p, v, values_only=True)
    if case["kind"] != "steps":
        v.saw(case["kind"], *case["keys"])
        common.stats_seen(v, p)
        return
    for k in case["keys"]:
        v.saw(k)
    if case["fail"]:
        if o.code == 0:
            v.fail("different EQU accepted")
        return
    if o.code:
        v.fail("valid assignments refused", (o.out or b"")[-300:].decode("latin-1"))
        return
    v.count("names made of long arguments", case.get("long", 0))
    img = bytearray(o.file("O.bin") or b"")
    want = bytes.fromhex(case["image"])
    if "later9" in case["files"]["main.asm"]:
        want = want[:-1] + b"\x09\x55"
    else:
        want = want + b"\x55"
    v.count("probed bytes", len(want))
    if img != want:
        k = common.diffpos(img, want)
        v.fail("symbol has another value at this point", "at %d: %s instead of %s" % (k, bytes(img[k:k + 8]).hex(), want[k:k + 8].hex()))
        return
    vals = {g[0]: g[1] for g in common.symbols(o.file("O.sym") or b"") or []}
    for n, w in case["want"].items():
        if vals.get(n) != w:
            v.fail("symbol has another final value", "%s is %s instead of %x" % (n, vals.get(n), w))
            return
        v.count("final values checked")


def need(tier):
    return {"probed bytes": 100000, "kind steps ok": 5000, "kind steps refused": 50, "kind mixed ok": 100, "kind mixed refused": 100, "final values checked": 20000,
            "names made of long arguments": 50}
