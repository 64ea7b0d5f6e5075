from gen import isa, prog
from . import common

ID = "C32"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "running location and byte sum kept by the generator, compared with probes in the output, the symbols and ECHO"
NOTE = ("Statements of known size and content are mixed with probes that store, assign, print or test the special symbols; "
        "the generator keeps the location, relocation and sum of generated bytes itself, and the reference assembler is "
        "compared as well.")
RULE = "distinct (probe, kind of statement before it, relocated or not, segment kind, passes) compared"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 20000 if tier == "quick" else 120000


class Sim:
    def __init__(self, r):
        self.r = r
        self.cpu = r.choice(["6502", "65c02", "6803", "68hc11", "68705", "hd6303"])
        self.big = self.cpu not in ("6502", "65c02")
        self.lines, self.emits, self.want, self.echo, self.keys = [], [], {}, [], []
        self.org, self.rorg, self.sum = r.choice([0, 0x80, 0x1000, 0xf000]), None, 0
        self.uorg, self.bss = 0x40, False
        self.files, self.n, self.fwd = {}, 0, []
        # a constant made from a sum that settles late is a reason for another pass, and the same number of them twice
        # is taken for no progress: programs with forward references use SET only
        self.fixed = r.random() < .5
        self.last = "start"

    def here(self):
        return self.uorg if self.bss else self.org if self.rorg is None else self.rorg

    def emit(self, b):
        if self.bss:
            self.uorg += len(b)
            return
        self.emits.append((self.org, b))
        self.sum += sum(b)
        self.org += len(b)
        if self.rorg is not None:
            self.rorg += len(b)

    def word(self, x, n=2):
        return (x & ((1 << 8 * n) - 1)).to_bytes(n, "big" if self.big else "little")

    def lab(self):
        self.n += 1
        return "s%d" % self.n

    def expr(self, sym, val):
        """An expression around a special symbol, and its value."""
        r = self.r
        k = r.randrange(9)
        n = r.choice([0, 1, 2, 5, 0x80, 0x100])
        if k < 3:
            return sym, val
        if k == 3:
            return "%s+%d" % (sym, n), val + n
        if k == 4:
            return "%d+%s" % (n, sym), val + n
        if k == 5:
            return "[%s]*2+1" % sym, val * 2 + 1
        if k == 6:
            return "[%s]&$ff" % sym, val & 0xff
        if k == 7:
            return "[%s]/3" % sym, val // 3
        return "-[%s]" % sym, -val

    def special(self):
        if self.r.random() < .5:
            return "...", self.sum, "sum"
        return self.r.choice([".", "*"]), self.here(), "location"

    def statement(self):
        r = self.r
        k = r.random()
        if k < .05 and self.rorg is None:
            self.bss = not self.bss
            self.lines.append("\tseg.u ram" if self.bss else "\tseg code")
            if self.bss and self.uorg == 0x40:
                self.lines.append("\torg $40")
            self.last = "seg"
        elif self.bss:
            n = r.randrange(1, 9)
            self.lines.append("\tds %d%s" % (n, r.choice(["", ",5"])))
            self.emit(bytes(n))
            self.last = "ds in bss"
        elif k < .25:
            b = r.randbytes(r.choice([1, 2, 5, 20, 90]))
            self.lines.append("\tdc.b " + ",".join("$%02x" % x for x in b))
            self.emit(b)
            self.last = "dc"
        elif k < .33:
            n, f = r.choice([0, 1, 3, 40, 1024, 1025, 3000]), r.choice([0, 1, 0x80, 255])
            self.lines.append("\tds %d,%d" % (n, f))
            self.emit(bytes([f]) * n)
            self.last = "ds"
        elif k < .38:
            n, f = r.choice([2, 8, 256]), r.choice([0, 1, 0xaa, 255])
            self.lines.append("\talign %d,%d" % (n, f))
            self.emit(bytes([f]) * (-self.here() % n))
            self.last = "align"
        elif k < .43:
            n = r.choice([1, 10, 300])
            if self.rorg is None:
                self.lines.append("\torg .+%d%s" % (n, r.choice(["", ",3", ",255"])))
                self.org += n                   # a gap counts for nothing
                self.last = "org"
        elif k < .51:
            if self.rorg is None:
                self.rorg = r.choice([0, 0x20, 0x100, 0xc000])
                self.lines.append("\trorg $%x" % self.rorg)
                self.last = "rorg"
            else:
                self.rorg = None
                self.lines.append("\trend")
                self.last = "rend"
        elif k < .58:
            b = r.randbytes(r.choice([1, 3, 700, 2500]))
            n = "b%d.bin" % len(self.files)
            self.files[n] = b.decode("latin-1")
            self.lines.append('\tincbin "%s"' % n)
            self.emit(b)
            self.last = "incbin"
        elif k < .64:
            b = r.randbytes(r.choice([1, 4, 16]))
            self.lines.append("\thex " + b.hex())
            self.emit(b)
            self.last = "hex"
        elif k < .7:
            n, x = r.randrange(0, 5), r.randrange(256)
            self.lines.append("\trepeat %d\n\tdc.b %d\n\trepend" % (n, x))
            for _ in range(n):
                self.emit(bytes([x]))
            self.last = "repeat"
        elif k < .76:
            x = r.randrange(256)
            m = self.lab()
            self.lines.append("\tmac m%s\n\tdc.b {1}\n\tdc.b {1}\n\tendm\n\tm%s %d" % (m, m, x))
            self.emit(bytes([x, x]))
            self.last = "macro"
        elif k < .82:
            self.emit(bytes([{"6502": 0xea, "65c02": 0xea, "68705": 0x9d}.get(self.cpu, 0x01)]))
            self.lines.append("\tnop")
            self.last = "instruction"
        elif k < .88 and not self.fixed:
            n, v = "f%d" % len(self.fwd), r.randrange(0x10000)
            self.fwd.append("%s\tequ\t%d" % (n, v))
            self.lines.append("\tdc.w %s" % n)
            self.emit(self.word(v))
            self.last = "forward"
        elif k < .94:
            x = r.randrange(256)
            if r.random() < .5:
                self.lines.append("\tif 0\n\tdc.b 1,2\n\telse\n\tdc.b %d\n\tendif" % x)
            else:
                n = "i%d.asm" % len(self.files)
                self.files[n] = "\tdc.b %d\n" % x
                self.lines.append('\tinclude "%s"' % n)
            self.emit(bytes([x]))
            self.last = "block"
        else:
            self.lines.append(r.choice(["", "; comment", "lab%d" % len(self.lines) if self.fixed else " ", "q%d\tequ 5" % len(self.lines)]))

    def probe(self):
        r = self.r
        k = r.random()
        s, val, what = self.special()
        key = None
        if k < .3 and not self.bss:
            # several in one statement: all see the state at its start
            items, b = [], b""
            size = r.choice([2, 4, 4])
            for _ in range(r.choice([1, 1, 2, 3])):
                t, x = self.expr(s, val)
                items.append(t if size == 4 else "[%s]&$ffff" % t)
                b += self.word(x, size)
                s, val, what = self.special()
            self.lines.append("\tdc.%s %s" % ("wl"[size == 4], ",".join(items)))
            self.emit(b)
            key = "data %d" % len(items)
        elif k < .5:
            t, x = self.expr(s, val)
            n = self.lab()
            self.lines.append("%s\t%s\t%s" % (n, r.choice(["equ", "=", "set"]) if self.fixed else "set", t))
            self.want[n] = x
            key = "symbol"
        elif k < .6:
            t, x = self.expr(s, val)
            self.lines.append('\techo "v", %s' % t)
            self.echo.append("v $%x" % (x & (1 << 64) - 1))
            key = "echo"
        elif k < .7 and not self.bss:
            t, x = self.expr(s, val)
            self.lines.append("\tif [%s] == %d\n\tdc.b 1\n\telse\n\tdc.b 2\n\tendif" % (t, x))
            self.emit(b"\1")
            key = "if"
        elif k < .8 and not self.bss:
            n = val & 7
            self.lines.append("\tds [%s]&7,1" % s)
            self.emit(b"\1" * n)
            key = "ds"
        elif k < .86 and not self.bss:
            self.lines.append("\trepeat [%s]&3\n\tdc.b 7\n\trepend" % s)
            for _ in range(val & 3):
                self.emit(b"\7")
            key = "repeat"
        elif k < .92 and not self.bss:
            n = self.lab()
            a, c = r.choice([1, 2, 3]), r.randrange(9)
            w = r.random() < .4
            t = "..*%d+%d" % (a, c)
            self.lines.append("%s\teqm\t%s" % (n, t + ("+%s" % s if w else "")))
            vals = [r.randrange(100) for _ in range(r.choice([1, 2, 5, 5, 200, 300]))]
            listed = list(map(str, vals))
            if len(vals) > 9:                   # more than is written at a time
                key = "long "
                if r.random() < .5:
                    t2 = "".join(r.choice("azAZ09 .*+~!") for _ in range(r.choice([255, 256, 257, 500])))
                    vals, listed = list(t2.encode()), ['"%s"' % t2]
            elif r.random() < .4:                 # each character of a string is a value of its own
                k = r.randrange(len(vals) + 1)
                t2 = "".join(r.choice("azAZ09 .*+~!") for _ in range(r.randrange(1, 7)))
                vals[k:k], listed[k:k] = t2.encode(), ['"%s"' % t2]
            # the probe is evaluated at the DV statement, which follows directly
            self.lines.append("\tdv.l %s %s" % (n, ",".join(listed)))
            b = b"".join(self.word(x * a + c + (val if w else 0), 4) for x in vals)
            self.emit(b)
            key = (key or "") + ("dv with %s" % what if w else "dv")
        elif not self.bss and k < .97:
            op = {"6502": 0xa9, "65c02": 0xa9, "68705": 0xa6}.get(self.cpu, 0x86)
            self.lines.append("\t%s #[%s]&$ff" % ("lda" if self.cpu[:4] in ("6502", "65c0", "6870") else "ldaa", s))
            self.emit(bytes([op, val & 0xff]))
            key = "instruction"
        else:
            n = self.lab()
            m = "pm" + n
            self.lines.append("\tmac %s\n{1}\tset\t%s\n\tendm\n\t%s %s" % (m, s, m, n))
            self.want[n] = val
            key = "in macro"
        self.keys.append((key, what, self.last, self.rorg is not None, self.bss))


def case(r, i, tier):
    s = Sim(r)
    start = s.org
    for _ in range(r.choice([4, 10, 25])):
        if r.random() < .45:
            s.probe()
        else:
            s.statement()
    if r.random() < .5:
        s.probe()
    text = "\tprocessor %s\n\tseg code\n\torg $%x\n" % (s.cpu, start) + "\n".join(s.lines + s.fwd) + "\n"
    return {"files": dict(s.files, **{"main.asm": text}), "args": ["main.asm", "-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym"],
            "want": s.want, "emits": [[a, b.hex()] for a, b in s.emits if b], "echo": s.echo, "keys": s.keys,
            "fmt": 0}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    if o.code or "want" not in case:
        if "want" in case:
            v.fail("a program of valid statements is refused", (o.out or b"").decode("latin-1")[-300:])
        return
    by = {}
    for a, b in case["emits"]:
        for k, x in enumerate(bytes.fromhex(b)):
            by[a + k] = x
    got = {}
    for a, b, w in p.emits:
        if w != "fill":
            for k, x in enumerate(b):
                got[a + k] = x
    if got != by:
        a = min(k for k in set(got) ^ set(by) | {k for k in got if got[k] != by.get(k)})
        v.fail("another byte than computed from the special symbols", "at $%x: %s instead of %s" % (a, got.get(a), by.get(a)))
        return
    dump = common.symbols(o.file("O.sym") or b"")
    if dump is None:
        v.fail("symbol file malformed")
        return
    dump = {d[0]: d for d in dump}
    for n, x in case["want"].items():
        if n not in dump or dump[n][2] or dump[n][1] != x & (1 << 64) - 1:
            v.fail("symbol assigned from a special symbol has another value", "%s instead of %x" % (dump.get(n), x))
            return
    lines = [" ".join(l.split()) for l in (o.out or b"").decode("latin-1").split("\n") if l.strip().startswith("v ")]
    if lines != case["echo"]:
        v.fail("special symbol printed with another value", "%s instead of %s" % (lines[:5], case["echo"][:5]))
        return
    for k in case["keys"]:
        v.saw(*k, min(p.passes, 3))
        v.count("probe " + k[0].split()[0])
    v.count("probes", len(case["keys"]))


def need(tier):
    return {"probes": 20000, "probe data": 5000, "probe symbol": 3000, "probe echo": 1000, "probe dv": 500, "probe long": 100, "probe if": 1000}
