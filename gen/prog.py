"""Random programs that use the whole language."""
from model import refasm as M
from . import isa

BYTES = [0, 1, 2, 0x7f, 0x80, 0xfe, 0xff]
WORDS = [0x100, 0x101, 0xff, 0x1234, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x0a0b]
BIG = [0x10000, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000]

DEFAULT = dict(instr=30, data=14, label=8, equ=5, set=5, ds=3, align=2, org=1, branch=6, cond=4, repeat=3, macro=4,
               call=5, include=1, incbin=1, seg=2, rorg=2, local=3, dollar=3, sub=2, echo=2, eqm=2, setstr=1,
               setsym=1, dyn=1, list=1, hex=2, dv=1, comment=3, blank=1, comment_block=1)


def number(r, v, ctx="data"):
    """A spelling of the number v."""
    if v < 0:
        return "-" + number(r, -v, ctx)
    k = r.random()
    if k < .35:
        return "$%x" % v if r.random() < .5 else "$%X" % v
    if k < .65:
        return "%d" % v
    if k < .75:
        return "0x%x" % v
    if k < .85 and v < 1 << 16:
        return "%" + bin(v)[2:]
    if k < .93:
        return "0%o" % v if v else "0"
    if v < 127 and v > 32 and chr(v) not in "{}'\";,\\":
        return "'" + chr(v)
    return "$%04x" % v


class Prog:
    def __init__(self, r, cpu=None, weights=None, size=30, fwd=.2, errors=0.0, origin=None, comments=.1):
        self.r = r
        self.cpu = cpu or r.choice(list(isa.CPUS))
        self.w = dict(DEFAULT)
        if weights:
            self.w.update(weights)
        self.size = size
        self.fwdrate = fwd
        self.errors = errors
        self.commentrate = comments
        self.out = []
        self.files = {}
        self.n = 0
        self.names = []         # (name, base asked for)
        self.bytesyms = []      # symbols with a value of 0..255
        self.wordsyms = []      # other value symbols
        self.labels = []        # code labels
        self.recent = []        # labels that are near
        self.fwdlabels = []     # promised labels
        self.fwdbytes = []      # promised byte symbols
        self.fwdwords = []
        self.nearfwd = []       # promised labels, soon
        self.strsyms = []
        self.eqms = []
        self.setsyms = []
        self.macros = []        # (name, parameters)
        self.segs = []
        self.bss = False
        self.depth = 0
        self.inmacro = None     # parameter count in a macro body
        self.injected = None
        self.origin = r.choice([0, 0x80, 0x100, 0x1000, 0x8000, 0xc000, 0xf000]) if origin is None else origin
        self.targets = self.cpu != "f8"
        self.since = 0

    # -- text --------------------------------------------------------------
    def name(self, base=None):
        r = self.r
        self.n += 1
        b = base or r.choice(["lab", "Foo", "k", "zz", "Val", "_u", "loop", "TABLE", "abc_def", "q", "n.m", "x_", "Yy.", "sp_", "x"])
        if r.random() < .15:
            b += "_abcdefghijklmnopqrstuvwxyz"[:r.randrange(1, 27)]
        self.names.append(("%s%d" % (b, self.n), base))
        return self.names[-1][0]

    def line(self, label="", mn="", op="", raw=None):
        r = self.r
        s = raw if raw is not None else (label + "\t" + mn + ("\t" + op if op else "")).rstrip("\t")
        if raw is None and r.random() < self.commentrate:
            s += r.choice([" ", "\t", "  "]) + r.choice(["; note", ";", "; \"quote", "; it's", "; a,b", ";; x {1}"][:5])
        self.out.append(s)

    # -- values ------------------------------------------------------------
    def lit(self, kind):
        r = self.r
        if kind == "b":
            v = r.choice(BYTES) if r.random() < .4 else r.randrange(256)
        elif kind == "w":
            v = r.choice(WORDS) if r.random() < .4 else r.randrange(0x100, 0x10000)
        else:
            v = r.choice(BIG) if r.random() < .3 else r.randrange(1 << r.choice([4, 8, 16, 24, 32, 40, 62]))
        return number(r, v)

    def sym(self, kind):
        r = self.r
        if r.random() < self.fwdrate:
            if kind == "b":
                if len(self.fwdbytes) < 4:
                    self.fwdbytes.append(self.name())
                return r.choice(self.fwdbytes)
            if r.random() < .5:
                if len(self.fwdlabels) < 4:
                    self.fwdlabels.append(self.name())
                return r.choice(self.fwdlabels)
            if len(self.fwdwords) < 4:
                self.fwdwords.append(self.name())
            return r.choice(self.fwdwords)
        pool = self.bytesyms if kind == "b" else self.wordsyms + self.labels
        if kind == "b" and self.eqms and r.random() < .1:
            return r.choice(self.eqms)
        return r.choice(pool) if pool else self.lit(kind)

    def br(self, s, ctx):
        """Brackets an expression (round brackets mean indirection in operands)."""
        if ctx == "instr" or self.r.random() < .5:
            return "[" + s + "]"
        return "(" + s + ")"

    def any(self, depth=2, ctx="data"):
        """An arbitrary expression."""
        r = self.r
        k = r.random()
        if depth <= 0 or k < .25:
            if k < .12:
                return self.lit(r.choice("bwl"))
            if k < .15:
                return r.choice([".", "*"])
            return self.sym(r.choice("bw"))
        if k < .4:
            op = r.choice(["-", "~", "!", "<", ">"])
            return op + self.atom(depth - 1, ctx)
        if k < .46:
            return self.atom(depth - 1, ctx) + r.choice(["<<", ">>"]) + str(r.randrange(0, 20))
        if k < .52:
            return self.atom(depth - 1, ctx) + r.choice(["/", " % "]) + str(r.randrange(1, 300))
        op = r.choice(["+", "-", "*", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "?", "=", "+", "-"])
        sp = r.choice(["", " "])
        return self.atom(depth - 1, ctx) + sp + op + sp + self.atom(depth - 1, ctx)

    def atom(self, depth, ctx):
        if depth <= 0:
            return self.any(0, ctx)
        return self.br(self.any(depth, ctx), ctx)

    def val(self, kind, ctx="instr"):
        """An operand that fits its field."""
        r = self.r
        if self.inmacro and r.random() < .25 and kind in "bi":
            return "{%d}" % r.randint(1, self.inmacro)
        if kind in "bi":
            k = r.random()
            if k < .55:
                return self.lit("b")
            if k < .8:
                return self.sym("b")
            if k < .9 and kind == "i":
                return r.choice(["<", ">"]) + self.atom(1, ctx)
            if kind == "i" and k < .95:
                return "-" + str(r.randrange(1, 129))
            return self.br(self.any(2, ctx), ctx) + "&" + r.choice(["$ff", "$7f", "255"])
        if kind == "m":
            return self.lit("b") if r.random() < .8 else self.sym("b")
        if kind == "w":
            k = r.random()
            if k < .4:
                return self.lit("w")
            if k < .85:
                return self.sym("w")
            return self.br(self.any(2, ctx), ctx) + "&$ffff|$100"
        if kind == "I":
            k = r.random()
            if k < .4:
                return self.lit(r.choice("bw"))
            if k < .8:
                return self.sym(r.choice("bw"))
            return self.br(self.any(2, ctx), ctx) + "&$ffff"
        if kind == "n" or kind == "3":
            return str(r.randrange(8))
        if kind == "4":
            return number(r, r.randrange(16))
        if kind == "r":
            return number(r, r.randrange(15))
        if kind == "t":
            k = r.random()
            if k < .3 or not self.recent:
                if k < .15 and len(self.nearfwd) < 3 and self.depth == 0 and not self.inmacro:
                    self.nearfwd.append(self.name())
                    return self.nearfwd[-1]
                return r.choice([".", "*"]) + r.choice(["", "+2", "-3", "+%d" % r.randrange(40), "-%d" % r.randrange(40)])
            return r.choice(self.recent)
        raise AssertionError(kind)

    # -- statements --------------------------------------------------------
    def label(self):
        """A fresh or promised label for the next statement, or nothing."""
        r = self.r
        if self.inmacro or self.depth > 0 and self.loop:
            return ""
        k = r.random()
        if self.nearfwd and k < .6 and not self.bss:
            n = self.nearfwd.pop()
        elif self.fwdlabels and k < .15:
            n = self.fwdlabels.pop(r.randrange(len(self.fwdlabels)))
        elif k < .3:
            n = self.name()
        else:
            return ""
        if self.depth == 0:
            self.labels.append(n)
            self.recent = (self.recent + [n])[-3:]
            self.since = 0
        return n + r.choice(["", "", ":"])

    loop = False

    def near(self):
        self.since += 1
        if self.since > 12:
            self.recent = []

    def s_instr(self):
        r = self.r
        t = isa.table(self.cpu)
        for _ in range(20):
            n, m, f = r.choice(t)
            if n in ("db", "dw", "dd", "res"):
                continue
            if m == "f8":
                op = isa.f8operand(r, n, self.val)
            else:
                if isa.needs_target(m, f) and r.random() < .5:
                    continue
                op = isa.operand(m, f, self.val, r.random() < .5)
            break
        else:
            n, op = "nop", ""
        self.line(self.label(), n, op)
        self.near()

    def s_branch(self):
        r = self.r
        t = [e for e in isa.table(self.cpu) if e[1] == M.REL or e[0] in ("br", "bz", "bnc", "bf")]
        n, m, f = r.choice(t)
        op = isa.f8operand(r, n, self.val) if m == "f8" else isa.operand(m, f, self.val)
        self.line(self.label(), n, op)
        self.near()

    def string(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 20]) if n is None else n
        al = "abcXYZ019 _-+*/.,:#$%&()[]<>=!?^|~@'" if r.random() < .7 else "abcdef "
        return "".join(r.choice(al) for _ in range(n)).replace("/*", "/+").replace("*/", "+/")

    def s_data(self):
        r = self.r
        mn, kind = r.choice([("dc", "b"), ("dc.b", "b"), ("dc.w", "w"), ("dc.l", "l"), ("byte", "b"), ("word", "w"),
                             ("long", "l"), (".byte", "b"), (".word", "w"), ("dc.s", "w"), (".long", "l")])
        items = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 8])):
            k = r.random()
            if k < .2:
                items.append('"' + self.string() + '"')
                if items[-1] == '""':
                    items[-1] = '"z"'
            elif kind == "b":
                items.append(self.val("i", "data") if r.random() < .7 else
                             r.choice(["<", ">"]) + self.atom(2, "data"))
            elif r.random() < .3:
                items.append(self.any(3))
            else:
                items.append(self.val("I", "data"))
        self.line(self.label(), mn, ",".join(items))
        self.near()

    def s_hex(self):
        r = self.r
        self.line(self.label(), "hex", r.choice(["", " "]).join("%02x" % r.randrange(256)
                                                                for _ in range(r.randrange(1, 9))))

    def s_label(self):
        n = self.label()
        if n:
            self.line(n)

    def s_equ(self):
        r = self.r
        if self.inmacro or self.loop:
            return
        kind = r.choice("bbw")
        pool = self.fwdbytes if kind == "b" else self.fwdwords
        if pool and r.random() < .4:
            n = pool.pop(r.randrange(len(pool)))
        else:
            n = self.name()
        if kind == "b":
            e = self.lit("b") if r.random() < .6 else self.br(self.any(2), "data") + "&$ff"
        else:
            e = self.lit("w") if r.random() < .5 else self.any(2)
        if r.random() < .3:
            self.line(raw="%s%s=%s%s" % (n, r.choice(["", " "]), r.choice(["", " "]), e))
        else:
            self.line(n, r.choice(["equ", "EQU", ".equ", "="]), e)
        if self.depth == 0:
            (self.bytesyms if kind == "b" else self.wordsyms).append(n)

    def s_set(self):
        r = self.r
        if self.setsyms and r.random() < .6:
            n = r.choice(self.setsyms)
            e = r.choice(["%s+1&$ff", "[%s*3]&$ff", "%s^$55"]) % n
        else:
            if self.inmacro or self.depth:
                return
            n = self.name()
            self.setsyms.append(n)
            self.bytesyms.append(n)
            e = self.lit("b")
        self.line(n, r.choice(["set", "SET", ".set"]), e)

    def s_eqm(self):
        if self.inmacro or self.depth:
            return
        n = self.name()
        e = self.br(self.any(2), "data") + "&$ff"
        self.line(n, "eqm", e)
        self.eqms.append(n)

    def s_ds(self):
        r = self.r
        mn = r.choice(["ds", "ds.b", "ds.w", "ds.l", ".ds"])
        if self.cpu == "f8":
            mn = r.choice(["ds.w", "ds.l"]) if False else "res"
        op = str(r.choice([0, 1, 2, 3, 7, 16, 30])) if r.random() < .8 else "[%s]&7" % self.any(1)
        if r.random() < .5:
            op += "," + (self.lit("b") if r.random() < .7 else self.any(1))
        self.line(self.label(), mn, op)

    def s_align(self):
        r = self.r
        op = str(r.choice([1, 2, 3, 4, 8, 16, 5, 10]))
        if r.random() < .5:
            op += "," + self.lit("b")
        self.line(self.label(), "align", op)

    def s_org(self):
        r = self.r
        if self.depth or self.inmacro:
            return
        op = ".+%d" % r.randrange(0, 60)
        if r.random() < .4:
            op += "," + self.lit("b")
        if self.inrorg:
            return
        self.line(self.label(), "org", op)
        self.recent = []

    inrorg = False

    def s_rorg(self):
        r = self.r
        if self.depth or self.inmacro:
            return
        if self.inrorg:
            self.line("", "rend")
            self.inrorg = False
        else:
            self.line(self.label(), "rorg", number(r, r.choice([0, 0xf000, 0x80, r.randrange(0x10000)])))
            self.inrorg = True
        self.recent = []

    def s_seg(self):
        r = self.r
        if self.depth or self.inmacro:
            return
        if self.inrorg:
            self.s_rorg()
        self.recent = []
        if self.bss:
            self.line("", "seg", "code")
            self.bss = False
        else:
            if "vars" in self.segs:
                self.line("", r.choice(["seg", "seg.u"]), "vars")
            else:
                self.segs.append("vars")
                self.line("", "seg.u", "vars")
                self.line("", "org", number(r, r.choice([0x80, 0, 0x200])))
            self.bss = True
            for _ in range(r.randrange(1, 4)):
                n = self.name()
                self.line(n, "ds", str(r.randrange(1, 9)))
                self.wordsyms.append(n)
            if r.random() < .7:
                self.line("", "seg", "code")
                self.bss = False

    def s_cond(self):
        r = self.r
        if self.depth >= 3:
            return
        k = r.random()
        if k < .25:
            n = r.choice(self.bytesyms + ["nosuch%d" % r.randrange(3)])
            self.line("", r.choice(["ifconst", "ifnconst", "IFCONST"]), n)
        elif k < .8 or not self.bytesyms:
            e = self.lit(r.choice("bw")) + r.choice([">", "==", "&", "<"]) + (
                r.choice(self.bytesyms) if self.bytesyms else "3")
            self.line("", r.choice(["if", "IF", "#if"]), e)
        else:
            self.line("", "if", self.sym("b") + "&1")
        self.block(r.randrange(0, 4))
        if r.random() < .6:
            self.line("", r.choice(["else", "ELSE"]))
            self.block(r.randrange(0, 4))
        self.line("", r.choice(["endif", "ENDIF", "eif"]))

    def block(self, n):
        self.depth += 1
        for _ in range(n):
            self.stmt()
        self.depth -= 1

    def s_repeat(self):
        r = self.r
        if self.depth >= 3:
            return
        self.line("", "repeat", r.choice(["0", "1", "2", "3", "5"]) if r.random() < .85 else
                  "[%s]&3" % (r.choice(self.bytesyms) if self.bytesyms else "7"))
        old, self.loop = self.loop, True
        self.block(r.randrange(1, 4))
        self.loop = old
        self.line("", "repend")

    def s_macro(self):
        r = self.r
        if self.inmacro is not None or self.depth or len(self.macros) > 6:
            return
        n = self.name("mac")
        p = r.randrange(0, 4)
        if r.random() < .5:
            self.line("", r.choice(["mac", "macro", "MAC"]), n)
        else:
            self.line("", "mac", n.upper() if r.random() < .3 else n)
        out, self.inmacro = self.out, p
        for _ in range(r.randrange(0, 5)):
            k = r.random()
            if k < .2:
                lab = ".l%d" % r.randrange(9)
                if not any(o.startswith(lab + "\t") or o == lab for o in self.out[-8:]):
                    self.line(lab)
                    self.line("", "dc.w", lab)
            elif k < .3:
                self.line("", "if", "%s" % ("{1}" if p else "1"))
                self.line("", "mexit")
                self.line("", "endif")
            else:
                self.stmt()
        self.out, self.inmacro = out, None
        self.line("", r.choice(["endm", "ENDM"]))
        self.macros.append((n, p))

    def s_call(self):
        r = self.r
        if not self.macros:
            return
        n, p = r.choice(self.macros)
        if self.inmacro is not None and self.macros[-1:] and False:
            return
        args = ",".join(self.lit("b") if r.random() < .7 else (r.choice(self.bytesyms) if self.bytesyms else "1")
                        for _ in range(p + (r.random() < .1)))
        self.line(self.label(), n.upper() if r.random() < .2 else n, args)
        self.recent = []

    def s_include(self):
        r = self.r
        if self.inmacro is not None or len(self.files) > 5 or self.depth > 1:
            return
        fn = "inc%d.h" % self.n
        self.n += 1
        old, self.out = self.out, []
        self.depth += 1
        for _ in range(r.randrange(1, 5)):
            self.stmt()
        self.depth -= 1
        self.files[fn] = "\n".join(self.out) + "\n"
        self.out = old
        self.line(self.label(), "include", r.choice(['"%s"', '%s'])[:4] % fn if False else '"%s"' % fn)

    def s_incbin(self):
        r = self.r
        fn = "bin%d" % self.n
        self.n += 1
        size = r.choice([0, 1, 2, 5, 17, 100, 300])
        self.files[fn] = "".join(chr(r.randrange(256)) for _ in range(size))
        self.line(self.label(), "incbin", '"%s"' % fn + (",%d" % r.randrange(0, size + 2) if r.random() < .4 else ""))
        self.recent = []

    def s_sub(self):
        if self.depth or self.inmacro is not None:
            return
        self.line(self.name() if self.r.random() < .5 else "", self.r.choice(["subroutine", "SUBROUTINE"]))

    def s_local(self):
        if self.depth or self.inmacro is not None:
            return
        r = self.r
        n = self.name(".x")
        self.line("", "dc.w", n)
        self.s_data()
        self.line(n, "dc.b", "1")
        if r.random() < .5:
            self.line("", "dc.w", n)

    def s_dollar(self):
        if self.depth or self.inmacro is not None:
            return
        r = self.r
        n = "%d$" % r.choice([r.randrange(1, 99), r.randrange(1, 99), r.randrange(10 ** r.randrange(1, 12))])
        self.line(self.name())
        self.line("", "dc.w", n)
        self.line(n, "hex", "%02x" % r.randrange(256))
        self.line("", "dc.w", n)
        self.recent = []

    def s_echo(self):
        r = self.r
        items = []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            items.append('"' + self.string(r.randrange(1, 12)) + '"' if k < .4 else
                         "[" + self.any(1) + "]d" if k < .5 else self.any(2))
        self.line("", "echo", ",".join(items))

    def s_setstr(self):
        r = self.r
        if self.inmacro is not None or self.depth:
            return
        n = self.name("str")
        k = r.random()
        if k < .5:
            self.line(n, "setstr", r.choice(["hello", "abc", "Foo", "lab_7"]))
        else:
            self.line(n, "set", '"%s"' % r.choice(["text", "a b", "q"]))
        self.strsyms.append(n)
        self.line("", "dc.b", n)

    def s_setsym(self):
        r = self.r
        if self.inmacro is not None or self.depth or not self.bytesyms:
            return
        n, m = self.name("sn"), self.name("sv")
        self.line(n, "setstr", r.choice(self.bytesyms))
        self.line(m, "setsym", n)
        self.line("", "dc.b", m)

    def s_dyn(self):
        r = self.r
        if self.inmacro is not None or self.depth:
            return
        b = self.name("dy") + "_"
        v = r.randrange(5)
        self.line(raw="%s,%d" % (b, v))
        self.line("", "dc.w", "%s%d" % (b, v))

    def s_list(self):
        self.line("", "list", self.r.choice(["on", "on", "ON", "off", "OFF", "localon", "localon", "LOCALON", "localoff", "LOCALOFF"]))

    def s_dv(self):
        r = self.r
        if self.inmacro is not None or self.depth:
            return
        n = self.name("dv")
        self.line(n, "eqm", r.choice(["..*2", "..+1", "[..&$f]<<2", "..^$1f"]))
        self.line("", r.choice(["dv", "dv.w", "dv.l"]), "%s %s" % (n, ",".join(
            r.choice([str(r.randrange(100)), '"ab"', self.lit("b")]) for _ in range(r.randrange(1, 4)))))

    def s_comment(self):
        self.line(raw=self.r.choice(["; comment", "\t; indented", ";", " /* c */", "/* c */ ; d"]))

    def s_blank(self):
        self.line(raw=self.r.choice(["", " ", "\t"]))

    def s_comment_block(self):
        if self.inmacro is not None:
            return
        self.line(raw="/* several")
        self.line(raw=" lda #$12 dc 1")
        self.line(raw="lines */")

    def stmt(self):
        r = self.r
        if self.errors and r.random() < self.errors and self.injected is None:
            self.injected = r.choice(ERRORS)
            self.line(raw=self.injected.replace("@", self.name()))
            return
        ks = self._ks
        k = r.choices(ks, self._ws)[0]
        if self.bss and k in ("instr", "data", "branch", "hex", "dv", "incbin", "align", "call", "local", "dollar"):
            k = "ds"
        getattr(self, "s_" + k)()

    def build(self):
        self._ks = [k for k, v in sorted(self.w.items()) if v]
        self._ws = [self.w[k] for k in self._ks]
        r = self.r
        self.line("", r.choice(["processor", "PROCESSOR", ".processor"]), r.choice(isa.SPELL[self.cpu]))
        self.line("", "seg", "code")
        if self.fwdrate and r.random() < .08:
            self.fwdwords.append(self.name())
            self.line("", "org", self.fwdwords[-1] + "&$ff0" if r.random() < .5 else number(r, self.origin))
        else:
            self.line("", "org", number(r, self.origin))
        for _ in range(self.size):
            self.stmt()
        self.finish()
        text = "\n".join(self.out) + "\n"
        files = dict(self.files)
        files["main.asm"] = text
        return files

    def finish(self):
        r = self.r
        if self.inrorg:
            self.line("", "rend")
        if self.bss:
            self.line("", "seg", "code")
        for n in self.nearfwd + self.fwdlabels:
            self.line(n)
        for n in self.fwdbytes:
            self.line(n, "equ", self.lit("b"))
        for n in self.fwdwords:
            self.line(n, "equ", self.lit("w"))


ERRORS = ["\tdc.b 256", "\tdc.b -256", "\tdc 1/0", "\tfoobar 12", "\tdc undefd", "\tdc.b 1+", "\tdc 1 2", "\terr",
          "\torg 0", "\trepeat -1\n\trepend", "\tincbin \"nofile\"", "\tinclude \"nofile.h\"", "@ equ 1\n@ equ 2",
          "\tprocessor 6510", "\tdc [1", "\tdc \"abc", "\tds -1", "\tendm", "\tmac @", "\talign 0", "\tdc {1}",
          "@\n\tdc 1\n@", "\t/* open", "\tclose */", "\tdc ~", "\thex 1g", "\tdc.b $", "\tdc ,1", "\tif nosuch\n\tendif",
          "\trepeat nosuch\n\trepend", "\tlda", "\tlda #1,x", "\tbra .+200", "\tdc.w `", "\tlist", "\tlda.b $1234"]
