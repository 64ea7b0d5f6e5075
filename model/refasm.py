"""Independent reference assembler.

Follows the documented behaviour of the assembler (multi pass, buffered
diagnostics) and predicts for a set of files and options: the exit status,
the output file, the emitted bytes, the symbol table, the listing lines, the
messages and the errors.  It is driven from the same source text that is given
to the real program and shares no code with it.
"""
import json, os, sys

sys.setrecursionlimit(12000)

UNKNOWN, REF, STRING, SET, MACRO, MASREF = 1, 4, 8, 0x10, 0x20, 0x40
SBSS, SRORG = 0x10, 0x20
MAXLINE = 1024
MAXOPS, MAXARGS = 32, 64

(IMP, IMM8, IMM16, BYTEADR, BYTEADRX, BYTEADRY, WORDADR, WORDADRX, WORDADRY,
 REL, BYTEREL, INDBYTEX, INDBYTEY, INDWORD, INDWORDX, INDBYTE, ZX, ZY, BITMOD,
 BITBRAMOD, BYTEADR_SP, WORDADR_SP, SYMBOL, EXPLIST, LONG, BSS,
 OTHER_ENDIAN) = range(27)
FORCE = 27              # what a suffix can ask for
MODE_NAMES = ("IMP IMM8 IMM16 BYTEADR BYTEADRX BYTEADRY WORDADR WORDADRX WORDADRY REL BYTEREL "
              "INDBYTEX INDBYTEY INDWORD INDWORDX INDBYTE 0X 0Y BITMOD BITBRAMOD BYTEADR_SP WORDADR_SP").split()
CVT = (0, 2, 0, 6, 7, 8, 9, 0, 0, 0, 0, 0, 0, 0, 2, 0, 4, 5, 0, 0, 0, 0)
OPSIZE = (0, 1, 2, 1, 1, 1, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1, 0, 0, 1, 1, 1, 2)
MF_MASK, MF_REL, MF_IMOD = 0x10, 0x20, 0x40

NONFATAL = {11, 14, 16, 18, 19, 24, 28}
ERRTEXT = {
    1: "Check command-line format.", 2: "Unable to open file.", 3: "Source is not resolvable.",
    4: "Too many passes (%s).", 5: "See previous output", 6: "Syntax Error '%s'.",
    7: "Expression table overflow.", 8: "Unbalanced Braces [].", 9: "Division by zero.",
    10: "Unknown Mnemonic '%s'.", 11: "Illegal Addressing mode '%s'.",
    12: "Illegal forced Addressing mode on '%s'.", 13: "Not enough args passed to Macro.",
    14: "Premature EOF.", 15: "Illegal character '%s'.", 16: "Branch out of range (%s bytes).",
    17: "ERR pseudo-op encountered.", 18: "Origin Reverse-indexed.", 19: "EQU: Value mismatch.",
    20: "Value in '%s' must be <$100.", 21: "Value in '%s' must be <$10000.",
    22: "Illegal bit specification.", 23: "Not enough arguments.", 24: "Label mismatch...\n --> %s",
    25: "Macro \"%s\" definition is repeated.", 26: "Value Undefined.",
    27: "Processor '%s' not supported.", 28: "REPEAT parameter < 0 (ignored).",
    30: "Only one processor type may be selected.", 32: "Value in '%s' must be 1 or 4.",
    33: "Value in '%s' must be <$10.", 34: "Value in '%s' must be <$8.",
    35: "Value in '%s' must be <$f.", 36: "Value in '%s' must be <$10000.",
    37: "Illegal combination of operands '%s'", 38: "Recursion too deep in %s",
    39: "Internal error in %s", 40: "Unbalanced macro %s", 41: "Multi-line comment not closed.",
    42: "Multi-line comment closed without open.", 43: "Type mismatch",
}

# reasons for another pass
(W_MNE, W_OBSCURE, W_DC, W_DV1, W_DV2, W_DS, W_ALIGN, W_ALIGNR, W_ALIGNO, W_EQU, W_EQUMIS, W_IF,
 W_REPEAT, W_FWD, W_PHASE, W_BRANCH, W_INCLUDE, W_INCBIN) = (1 << i for i in range(18))

_TABLES = None


def tables():
    global _TABLES
    if _TABLES is None:
        raw = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "opcodes.json")))
        _TABLES = {}
        for cpu, tab in raw.items():
            t = {}
            for name, e in tab.items():
                if "modes" in e:
                    t[name] = ("mne", name, e["flags"], {int(m): o for m, o in e["modes"].items()})
                else:
                    t[name] = ("f8", name, e["flags"], e["special"])
            _TABLES[cpu] = t
    return _TABLES


CPUS = {"6502": (6502, 0, ["6502"]), "65c02": (16502, 0, ["65c02"]), "65C02": (16502, 0, ["65c02"]),
        "6803": (6803, 1, ["6803"]), "HD6303": (6303, 1, ["6803", "hd6303"]),
        "hd6303": (6303, 1, ["6803", "hd6303"]), "68705": (68705, 1, ["68705"]),
        "68HC11": (6811, 1, ["68hc11"]), "68hc11": (6811, 1, ["68hc11"]),
        "F8": (0xf8, 1, ["f8"]), "f8": (0xf8, 1, ["f8"]),
        "68908": (68908, 1, ["68908"]), "68hc908": (68908, 1, ["68908"])}

DIRECTIVES = {"list": "list", "include": "include", "seg": "seg", "hex": "hex", "err": "err", "dc": "dc",
              "byte": "dc", "word": "dc", "long": "dc", "ds": "ds", "dv": "dc", "end": "end",
              "trace": "trace", "org": "org", "rorg": "rorg", "rend": "rend", "align": "align",
              "subroutine": "subroutine", "equ": "equ", "=": "equ", "eqm": "eqm", "set": "set",
              "setstr": "setstr", "setsym": "setsym", "mac": "macro", "macro": "macro", "endm": "endm",
              "mexit": "endm", "ifconst": "ifconst", "ifnconst": "ifnconst", "ifndef": "ifnconst",
              "if": "if", "else": "else", "endif": "endif", "eif": "endif", "repeat": "repeat",
              "repend": "repend", "echo": "echo", "processor": "processor", "incbin": "incbin",
              "incdir": "incdir"}
ALWAYS = {"macro", "ifconst", "ifnconst", "if", "else", "endif", "repeat", "repend"}


class Stop(Exception):
    """The assembler leaves at once with this status."""
    def __init__(self, code, abort=False):
        self.code = code
        self.abort = abort


class Unsupported(Exception):
    """The source is outside what the model describes."""


def w64(v):
    v &= 0xFFFFFFFFFFFFFFFF
    return v - (1 << 64) if v >> 63 else v


class Sym:
    __slots__ = ("name", "value", "flags", "string", "order")

    def __init__(self, name, flags=UNKNOWN, order=0):
        self.name, self.value, self.flags, self.string, self.order = name, 0, flags, None, order


class Seg:
    def __init__(self, name):
        self.name = name
        self.flags = self.rflags = self.initflags = self.initrflags = UNKNOWN
        self.org = self.rorg = self.initorg = self.initrorg = 0


class File:
    """An open source file."""
    __slots__ = ("data", "pos", "lost")

    def __init__(self, data):
        self.data, self.pos, self.lost = data, 0, False

    def gets(self):
        d, p = self.data, self.pos
        if p >= len(d):
            return None
        e = d.find("\n", p)
        e = len(d) if e < 0 else e + 1
        cut = ""
        if e - p > MAXLINE - 1:
            cut, e = d[p + MAXLINE - 1:e].rstrip("\n"), p + MAXLINE - 1
        s = d[p:e]
        z = s.find("\0")
        self.lost = False
        if z >= 0:                      # read as if it ended here, and the rest is another line
            s, cut = s[:z], ""
        elif len(s) == MAXLINE - 1 and s[-1] != "\n":
            # a line longer than the buffer: what does not fit is skipped
            e = d.find("\n", e)
            e = len(d) if e < 0 else e + 1
            self.lost = cut.strip("\r \t") != ""
        self.pos = e
        return s


class Inc:
    __slots__ = ("name", "fi", "lineno", "macro", "nolist", "args", "lines", "pos", "saveidx", "savedol", "saveml")

    def __init__(self, name, fi):
        self.name, self.fi, self.lineno = name, fi, 0
        self.macro = self.nolist = False
        self.args = self.lines = None
        self.pos = self.saveidx = self.savedol = 0
        self.saveml = False


class If:
    __slots__ = ("file", "xtrue", "acctrue", "base")

    def __init__(self, file, xtrue, acctrue, base=False):
        self.file, self.xtrue, self.acctrue, self.base = file, xtrue, acctrue, base


class Rep:
    __slots__ = ("file", "count", "seek", "lineno", "flags", "saveml")


class Macro:
    __slots__ = ("name", "lines", "defpass")


class Item:
    __slots__ = ("value", "flags", "string", "mode")

    def __init__(self):
        self.value, self.flags, self.string, self.mode = 0, 0, None, 0


def is_alnum(c):
    return c != "" and (("a" <= c <= "z") or ("A" <= c <= "Z") or ("0" <= c <= "9"))


def is_symchar(c):
    return c != "" and (is_alnum(c) or c in "_.@{}")


def is_name(c):
    return c != "" and (is_alnum(c) or c in "_.@$")


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def low1(c):
    return chr(ord(c) | 0x20) if c else ""


def symfields(value, flags):
    """The state columns of a symbol as the dump shows them."""
    return ("%04x" % (value & 0xFFFFFFFFFFFFFFFF), bool(flags & UNKNOWN), bool(flags & STRING),
            bool(flags & MACRO), bool(flags & MASREF), bool(flags & SET))


class Result:
    pass


class Asm:
    def __init__(self, files, main="main.asm", fmt=1, defs=(), macs=(), incdirs=(), strict=False,
                 passes=10, allpasses=False, maxsize=640 * 1024, cmdline=None, max_lines=200000, report=False):
        self.files = {os.path.normpath(k): (v.decode("latin-1") if isinstance(v, bytes) else v)
                      for k, v in files.items()}
        self.main, self.fmt = main, fmt
        self.strict, self.maxpasses, self.allpasses, self.maxsize = strict, passes, allpasses, maxsize
        # options in command line order: ("D"|"M", name, text)
        self.cmdline = list(cmdline) if cmdline is not None else \
            [("D", n, t) for n, t in defs] + [("M", n, t) for n, t in macs]
        self.incdirs = list(incdirs)
        self.max_lines = max_lines
        self.syms = {}
        self.macros = {}
        self.mnes = {}
        self.cpu = 0
        self.cpu_called = False
        self.msb = 1
        self.initial = Seg("INITIAL CODE SEGMENT")
        self.segs = [self.initial]
        self.cseg = self.initial
        self.redo = self.why = self.reval = 0
        self.redo_if = 0
        self.npass = 1
        self.mlflag = False
        self.ndecl = self.nclose = 0
        self.symdepth = 0
        self.special = Sym("..", 0)
        self.special.flags = 0
        self.nargs = self.nops = 0
        self.errors = []          # of the current pass
        self.listlog = []         # what the listing of the current pass shows, in order
        self.msgs = ""            # of the current pass
        self.puts = []            # direct console output, all passes
        self.fatal = {}
        self.inc = None
        self.started = False
        self.localidx = self.lastlocalidx = 0
        self.dolidx = self.lastdolidx = 0
        self.symcount = 0
        self.checksum = 0
        self.ifs = []
        self.reps = []
        self.mlevel = 0
        self.linecount = 0
        self.inclevel = 0
        self.gen = b""
        self.plab = self.pflags = 0
        self.stats = {}
        self.linefile = None
        self.image = bytearray()
        self.emits = []
        self.listing = []
        self.reports = [] if report else None       # per pass
        self.included = []

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- diagnostics ---------------------------------------------------
    def err(self, n, abort=False, text=None):
        if n not in NONFATAL and self.started:
            self.fatal[self.npass] = True
        p = self.inc
        while p is not None and p.macro:
            p = p.next_
        if p is None:
            abort = True
            where = (None, 0)
        else:
            where = (p.name, p.lineno)
        t = ERRTEXT[n]
        if "%s" in t:
            t = t % (text if text is not None else "")
        self.errors.append((where[0], where[1], n, t))
        self.listlog.append(("error", where[0], where[1], t))
        self.hit("err%d" % n)
        if abort:
            raise Stop(n, True)

    def again(self, why):
        self.redo += 1
        self.why |= why

    # -- symbols ---------------------------------------------------------
    def symname(self, s):
        if s[0] == ".":
            return "%d%s" % (self.localidx, s)
        if s[-1] == "$":
            return "%d$%s" % (self.dolidx, s)
        return s

    def find(self, s):
        if s == "":
            raise Unsupported("empty symbol name")
        if s[0] == ".":
            if s == ".":
                seg = self.cseg
                o = Sym(".", 0)
                if seg.flags & SRORG:
                    o.flags, o.value = seg.rflags & UNKNOWN, w64(seg.rorg)
                else:
                    o.flags, o.value = seg.flags & UNKNOWN, w64(seg.org)
                return o
            if s == "..":
                return self.special
            if s == "...":
                o = Sym("...", 0)
                o.flags, o.value = 0, w64(self.checksum)
                return o
        return self.syms.get(self.symname(s))

    def create(self, s, ordered):
        if s in (".", "..", "..."):
            raise Unsupported("assignment to " + s)
        n = self.symname(s)
        y = Sym(n)
        if ordered:
            self.symcount += 1
            y.order = self.symcount
        self.syms[n] = y
        return y

    def programlabel(self):
        seg = self.cseg
        rorg = seg.flags & SRORG
        cflags = seg.rflags if rorg else seg.flags
        pc = seg.rorg if rorg else seg.org
        self.plab, self.pflags = seg.org, seg.flags
        s = self.av0
        if s == "":
            return
        if s[-1] == ":":
            s = s[:-1]
            if s == "":
                raise Unsupported("label ':'")
        if s[0] != "." and s[-1] != "$":
            self.lastdolidx += 1
            self.dolidx = self.lastdolidx
        if s in (".", "..", "..."):
            raise Unsupported("label " + s)
        y = self.find(s)
        self.hit("label")
        if y is not None:
            if not y.order:
                self.symcount += 1
                y.order = self.symcount
            if y.flags & (UNKNOWN | REF) == UNKNOWN | REF:
                self.again(W_FWD)
            elif cflags & UNKNOWN and y.flags & REF:
                self.again(W_FWD)
            elif not cflags & UNKNOWN and not y.flags & UNKNOWN:
                if w64(pc) != y.value:
                    if not self.redo_if & 2:
                        self.err(24, False, "%s %s" % (y.name, "%04x" % (y.value & 0xFFFFFFFFFFFFFFFF)))
                    self.again(W_PHASE)
        else:
            y = self.create(s, True)
        y.value = w64(pc)
        y.flags = (y.flags & ~UNKNOWN) | (cflags & UNKNOWN)

    # -- expressions -------------------------------------------------------
    def eval(self, s, wantmode):
        instruction = wantmode
        line = s
        base = cur = Item()
        items = [base]
        args = []                       # (value, flags, string)
        ops = []                        # (priority, operator)
        opbase = self.nops
        argbase = self.nargs
        lastop = True
        ucasm = False
        n = len(s)
        i = 0

        def at(k):
            return s[k] if k < n else ""

        def push(v, f, st=None):
            nonlocal lastop
            lastop = False
            if self.nargs >= MAXARGS:
                self.err(7, True)
            args.append((w64(v), f, st))
            self.nargs += 1
            while ops and ops[-1][0] == 128:
                evaltop()

        def pop():
            self.nargs -= 1
            return args.pop()

        def drop():
            self.nargs -= len(args)
            args.clear()

        def evaltop():
            if not ops:
                self.err(6)
                return
            pri, op = ops.pop()
            self.nops -= 1
            if op is None:
                self.err(39, True, "operator function table")
            if pri == 128:
                if not args:
                    self.err(6)
                    drop()
                    return
                v, f, _ = pop()
                if op == "~":
                    v = ~v
                elif op == "-":
                    v = -v
                elif op == "!":
                    v = int(v == 0)
                elif op == "<":
                    v &= 0xFF
                else:
                    v = (v >> 8) & 0xFF
                push(v, f)
                return
            if len(args) < 2:
                self.err(6)
                drop()
                return
            b, fb, _ = pop()
            a, fa, _ = pop()
            f = fa | fb
            if op == "*":
                push(a * b, f)
            elif op == "+":
                push(a + b, f)
            elif op == "-":
                push(a - b, f)
            elif op == "/":
                if f:
                    push(0, f)
                elif b == 0:
                    self.err(9, True)
                else:
                    q = abs(a) // abs(b)
                    push(q if (a < 0) == (b < 0) else -q, 0)
            elif op == "%":
                if f:
                    push(0, f)
                elif b == 0:
                    push(a, 0)
                else:
                    r = abs(a) % abs(b)
                    push(-r if a < 0 else r, 0)
            elif op in ("<<", ">>"):
                if f:
                    push(0, f)
                elif not 0 <= b < 64:
                    raise Unsupported("shift count")
                else:
                    push(a << b if op == "<<" else a >> b, 0)
            elif op == ">":
                push(int(a > b), f)
            elif op == ">=":
                push(int(a >= b), f)
            elif op == "<":
                push(int(a < b), f)
            elif op == "<=":
                push(int(a <= b), f)
            elif op == "==":
                push(int(a == b), f)
            elif op == "!=":
                push(int(a != b), f)
            elif op == "&":
                push(a & b, f)
            elif op == "^":
                push(a ^ b, f)
            elif op == "|":
                push(a | b, f)
            elif op == "&&":
                if (not fa and not a) or (not fb and not b):
                    push(0, 0)
                else:
                    push(1, f)
            elif op == "||":
                if (not fa and a) or (not fb and b):
                    push(1, 0)
                else:
                    push(0, f)
            elif op == "?":
                if fa:
                    push(0, fa)
                else:
                    push(b if a else 0, fb if a else 0)
            else:
                raise AssertionError(op)

        def doop(op, pri):
            nonlocal lastop
            if ops and pri != 128:
                while ops and ops[-1][0] and pri <= ops[-1][0]:
                    evaltop()
                if self.nops >= MAXOPS:
                    self.err(7, True)
            elif self.nops >= MAXOPS:
                self.err(38, True, "doop()")
            ops.append((pri, op))
            self.nops += 1
            lastop = True
            self.hit("op" + op + ("u" if pri == 128 else ""))

        def take(item):
            v, f, st = pop()
            item.value, item.flags, item.string = v, f, st
            if st is not None:
                item.flags |= STRING

        def pushsym(p):
            """Push the symbol that starts at p; returns the end."""
            self.symdepth += 1
            if self.symdepth > 1000:
                self.err(38, True, "pushsymbol()")
            e = p
            while e < n and is_symchar(s[e]):
                e += 1
            if e == p:
                self.err(15, False, s[p:])
                self.puts.append("char = '%c' %d ")
                self.listlog.append(("text", "char = '%s' code %d" % (s[p], (ord(s[p]) + 128) % 256 - 128)))
                self.symdepth -= 1
                return p + 1
            if at(e) == "$":
                e += 1
            pushname(s[p:e])
            self.symdepth -= 1
            return e

        def pushname(name):
            y = self.find(name)
            if y is not None:
                if y.flags & UNKNOWN:
                    self.reval += 1
                if y.flags & MACRO:
                    it = self.eval(y.string, 0)[0]
                    if it.flags & STRING:
                        pushstring(it.string)
                    else:
                        push(it.value, it.flags & UNKNOWN)
                    self.hit("eqm")
                    return
                if y.flags & STRING:
                    pushstring(y.string)
                else:
                    push(y.value, y.flags & UNKNOWN)
                y.flags |= REF | MASREF
            else:
                push(0, UNKNOWN)
                y = self.create(name, False)
                y.flags = REF | MASREF | UNKNOWN
                self.reval += 1

        def pushstring(t):
            e = t.find('"')
            if e >= 0:
                t = t[:e]
            v = 0
            for c in t:
                v = (v << 8) | ord(c)
            push(v, 0, t)

        while i < n:
            c = s[i]
            if c == " " or c == "\n":
                i += 1
            elif c == "~":
                if lastop:
                    doop("~", 128)
                else:
                    self.err(6, False, line)
                i += 1
            elif c == "*":
                if lastop:
                    self.symdepth += 1
                    pushname(".")
                    self.symdepth -= 1
                else:
                    doop("*", 20)
                i += 1
            elif c == "/":
                doop("/", 20)
                i += 1
            elif c == "%":
                if lastop:
                    i += 1
                    v = 0
                    while at(i) and at(i) in "01":
                        v = (v << 1) | int(s[i])
                        i += 1
                    push(v, 0)
                else:
                    doop("%", 20)
                    i += 1
            elif c == "?":
                doop("?", 10)
                i += 1
            elif c == "+":
                doop("+", 19)
                i += 1
            elif c == "-":
                if lastop:
                    doop("-", 128)
                else:
                    doop("-", 19)
                i += 1
            elif c == ">" or c == "<":
                if lastop:
                    doop(c, 128)
                elif at(i + 1) == c:
                    doop(c + c, 18)
                    i += 1
                elif at(i + 1) == "=":
                    doop(c + "=", 17)
                    i += 1
                else:
                    doop(c, 17)
                i += 1
            elif c == "=":
                if at(i + 1) == "=":
                    i += 1
                doop("==", 16)
                i += 1
            elif c == "!":
                if lastop:
                    doop("!", 128)
                else:
                    doop("!=", 16)
                    i += 1
                    if i >= n:
                        raise Unsupported("! at end")
                i += 1
            elif c == "&":
                if at(i + 1) == "&":
                    doop("&&", 12)
                    i += 1
                else:
                    doop("&", 15)
                i += 1
            elif c == "^":
                doop("^", 14)
                i += 1
            elif c == "|":
                if at(i + 1) == "|":
                    doop("||", 11)
                    i += 1
                else:
                    doop("|", 13)
                i += 1
            elif c == "(" and wantmode:
                cur.mode = INDWORD
                i += 1
            elif c == "(" or c == "[":
                ucasm = False
                l1, l2 = low1(at(i + 1)), low1(at(i + 2))
                if self.cpu in (68705, 6811, 68908) and \
                        ((l1 in ("x", "y") and at(i + 2) == "+") or (l1 == "s" and l2 == "p" and at(i + 3) == "+")):
                    ucasm = True
                    cur.mode = {"x": BYTEADRX, "y": BYTEADRY, "s": BYTEADR_SP}[l1]
                    i += 4 if l1 == "s" else 3
                else:
                    if self.nops >= MAXOPS:
                        self.err(7, True)
                    ops.append((0, None))
                    self.nops += 1
                    i += 1
                    self.hit("bracket")
            elif c == ")" and wantmode:
                if cur.mode == INDWORD and at(i + 1) == "," and low1(at(i + 2)) == "y":
                    cur.mode = INDBYTEY
                    i += 2
                if cur.mode == INDWORD and at(i + 1) == "," and low1(at(i + 2)) == "x":
                    self.err(11, False, line)
                    self.again(W_MNE)
                if cur.mode == INDWORD and i + 1 >= n and self.cpu == 16502:
                    cur.mode = INDBYTE
                i += 1
            elif c == ")" or c == "]":
                while ops and ops[-1][0]:
                    evaltop()
                if ops:
                    ops.pop()
                    self.nops -= 1
                elif not ucasm:
                    self.err(8, False)
                i += 1
                if ucasm:
                    ucasm = False
                elif not args:
                    self.puts.append("']' error, no arg on stack")
                    continue
                if at(i) == "d":
                    i += 1
                    if args and args[-1][1] == 0:
                        v, f, _ = args[-1]
                        args[-1] = (v, f, "%d" % v)
                        self.hit("strconv")
                lastop = False
            elif c == "#":
                cur.mode = IMM8
                i += 1
                wantmode = 0
            elif c == ",":
                while ops:
                    evaltop()
                lastop = True
                scr = low1(at(i + 1)) if instruction else ""
                if cur.mode and cur.mode != INDWORD and (scr in ("x", "y") and not is_name(at(i + 2)) or
                                                         scr == "s" and low1(at(i + 2)) == "p" and not is_name(at(i + 3))):
                    self.err(11, False, line)
                    self.again(W_MNE)
                if cur.mode == INDWORD and scr == "x" and not is_name(at(i + 2)):
                    cur.mode = INDBYTEX
                    i += 1
                elif cur.mode != INDWORD and (scr not in ("x", "y") or is_name(at(i + 2))) and self.cpu == 16502:
                    cur.mode = BYTEREL
                    new = Item()
                    if args:
                        take(cur)
                    else:
                        self.err(6, False, line)
                    items.append(new)
                    cur = new
                elif cur.mode == INDWORD and scr == "y" and at(i + 2) == ")" and wantmode:
                    self.err(11, False, line)
                    self.again(W_MNE)
                    cur.mode = ZY
                    i += 1
                elif scr == "x" and not is_name(at(i + 2)):
                    cur.mode = ZX
                    i += 1
                elif scr == "y" and not is_name(at(i + 2)):
                    cur.mode = ZY
                    i += 1
                elif scr == "s" and low1(at(i + 2)) == "p" and not is_name(at(i + 3)):
                    cur.mode = BYTEADR_SP
                    i += 2
                else:
                    new = Item()
                    if len(args) != 1:
                        self.err(6, False, line)
                    if args:
                        take(cur)
                    items.append(new)
                    cur = new
                i += 1
            elif c == "$":
                i += 1
                v = 0
                while at(i) and at(i) in "0123456789abcdefABCDEF":
                    v = (v << 4) + int(s[i], 16)
                    i += 1
                push(v, 0)
            elif c == "'":
                i += 1
                if i < n:
                    v = ord(s[i])
                    push(v, 0)
                    i += 1
                else:
                    push(32, 0)
            elif c == '"':
                e = s.find('"', i + 1)
                pushstring(s[i + 1:] if e < 0 else s[i + 1:e])
                i = n if e < 0 else e + 1
            else:
                e = i
                while at(e) and "0" <= s[e] <= "9":
                    e += 1
                if at(e) == "$":
                    i = pushsym(i)
                elif c == "0":
                    if at(i + 1) == "x":
                        i += 2
                        v = 0
                        while at(i) and at(i) in "0123456789abcdefABCDEF":
                            v = (v << 4) + int(s[i], 16)
                            i += 1
                    else:
                        v = 0
                        while at(i) and "0" <= s[i] <= "7":
                            v = (v << 3) + int(s[i])
                            i += 1
                    push(v, 0)
                elif "1" <= c <= "9":
                    v = int(s[i:e])
                    i = e
                    push(v, 0)
                else:
                    i = pushsym(i)
        while ops:
            evaltop()
        if args:
            take(cur)
            if base.mode == 0:
                base.mode = BYTEADR if cur.mode != BYTEREL else BYTEREL
        if args:
            self.err(6, False, line)
        self.nargs = argbase
        self.nops = opbase
        return items

    # -- output ------------------------------------------------------------
    def checksize(self):
        if self.cseg.org > self.maxsize:
            self.err(38, True, "code segment growing larger (%d) than max. allowed file size (%d)\n"
                     % (self.cseg.org, self.maxsize))

    def generate(self, data, length=None):
        """Emit bytes; with length the content does not matter (another pass follows)."""
        seg = self.cseg
        n = len(data) if length is None else length
        self.gen = data
        if not self.redo and not seg.flags & SBSS:
            self.checksum = (self.checksum + sum(data)) & 0xFFFFFFFFFFFFFFFF
            if self.fclear:
                self.fclear = False
                if seg.flags & UNKNOWN:
                    self.again(W_OBSCURE)
                    return
                self.forg = seg.org
                if self.fmt < 3:
                    self.image += bytes((seg.org & 0xFF, (seg.org >> 8) & 0xFF))
                    if self.fmt == 2:
                        self.seekback = len(self.image)
                        self.seglen = 0
                        self.image += b"\0\0"
            if self.fmt in (1, 3):
                if seg.org < self.forg:
                    self.err(18, True)
                self.checksize()
                gap = seg.org - self.forg
                if gap:
                    self.image += bytes([self.orgfill]) * gap
                    self.emits.append((self.forg, bytes([self.orgfill]) * gap, "fill"))
                    self.forg = seg.org
                self.image += data
            else:
                if self.forg != seg.org or self.seglen + n > 0xFFFF:
                    self.forg = seg.org
                    self.patchlen()
                    self.image += bytes((seg.org & 0xFF, (seg.org >> 8) & 0xFF))
                    self.seekback = len(self.image)
                    self.seglen = 0
                    self.image += b"\0\0"
                    self.hit("hunk")
                self.image += data
                self.seglen += n
            if data:
                self.emits.append((seg.org, bytes(data), self.where()))
            self.forg += n
        elif not self.redo:
            self.hit("bss")
        seg.org = (seg.org + n) & 0xFFFFFFFFFFFFFFFF
        if seg.flags & SRORG:
            seg.rorg = (seg.rorg + n) & 0xFFFFFFFFFFFFFFFF
        self.checksize()

    def where(self):
        return "code"

    def patchlen(self):
        self.image[self.seekback:self.seekback + 2] = bytes((self.seglen & 0xFF, (self.seglen >> 8) & 0xFF))

    def genfill(self, fill, entries, size):
        if entries == 0:
            return
        if entries < 0:
            self.err(18, True)
        b = (fill & 0xFFFFFFFF).to_bytes(4, "big")[4 - size:]
        if not self.msb:
            b = b[::-1]
        total = entries * size
        chunk = b * (1024 // size)
        while total > 1024:
            self.generate(chunk)
            total -= 1024
        self.generate(chunk[:total])
        self.gen = chunk[:total]

    # -- lines -------------------------------------------------------------
    def checklost(self, fi, buf):
        """Of a line that does not fit into the buffer only a comment may be lost."""
        if not fi.lost or not self.active():
            return
        k = 0
        while k < len(buf) and not self.mlflag:
            if buf[k] == ";":
                return
            if buf[k:k + 2] == "/*":
                break
            if buf[k] == '"' and buf.find('"', k + 1) >= 0:
                k = buf.find('"', k + 1)
            elif buf[k] == "'":
                k += 1
            k += 1
        self.err(6, False, "line too long")

    def cleanup(self, buf, disable):
        """Returns the statement part and the comment."""
        ms = me = -1
        k = 0
        while not self.mlflag and k < len(buf) and buf[k] != ";":
            if buf[k:k + 2] == "/*":
                ms, me = k, buf.find("*/", k)
                break
            if buf[k:k + 2] == "*/":
                me = k
                break
            if buf[k] == '"' and buf.find('"', k + 1) >= 0:
                k = buf.find('"', k + 1)
            elif buf[k] == "'":
                k += 1
            k += 1
        if self.mlflag:
            me = buf.find("*/")
            if me >= 0:
                self.mlflag = False
                tail = buf[me + 2:]
                for c in "\r\n":
                    k = tail.find(c)
                    if k >= 0:
                        tail = tail[:k]
                return self.cleanup((tail + ";*/" + buf[:me])[:MAXLINE - 1], disable)
            buf = ";" + buf
        else:
            if me >= 0 and ms < 0:
                self.err(42)
            if ms >= 0:
                if me >= 0:
                    tail = buf[me + 2:]
                    for c in "\r\n":
                        k = tail.find(c)
                        if k >= 0:
                            tail = tail[:k]
                    return self.cleanup((buf[:ms] + tail + ";/" + buf[ms + 1:me + 1])[:MAXLINE - 1], disable)
                self.mlflag = True
                buf = buf[:ms] + ";" + buf[ms:]
        comment = ""
        i = 0
        b = buf
        out_end = None
        argend = 0          # end of the last argument that was filled in
        while i < len(b):
            c = b[i]
            if c == ";":
                comment = b[i + 1:]
                out_end = i
                break
            if c in "\r\n":
                out_end = i
                break
            if c == "\t":
                b = b[:i] + " " + b[i + 1:]
            elif c == "'":
                i += 1
                d = b[i] if i < len(b) else ""
                if d == "\t":
                    d = " "
                    b = b[:i] + " " + b[i + 1:]
                if d == "" or d == "\n":
                    d = " "
                    b = b[:i] + " "
                if d == " ":
                    b = b[:i] + "\x80" + b[i + 1:]
            elif c == '"':
                i += 1
                e = b.find('"', i)
                end = len(b) if e < 0 else e
                b = b[:i] + b[i:end].replace(" ", "\x80") + b[end:]
                i = end
                if e < 0:
                    self.err(6, False, b)
                    i -= 1
            elif c == "{" and not disable and i >= argend:
                j = i + 1
                while j < len(b) and b[j] in " \t\v\f\r\n":
                    j += 1
                sign = 1
                if j < len(b) and b[j] in "+-":
                    sign = -1 if b[j] == "-" else 1
                    j += 1
                num = ""
                while j < len(b) and "0" <= b[j] <= "9":
                    num += b[j]
                    j += 1
                arg = sign * int(num) if num else 0
                e = b.find("}", i)
                if e < 0:
                    self.puts.append("end brace required")
                    i = len(b) - 1
                else:
                    args = self.inc.args
                    if args is None or arg < 0 or arg >= len(args):
                        self.err(13)
                        # the text up to the brace stays, the rest of the line is dropped
                        out_end = e + 1
                        break
                    t = args[arg]
                    if len(b) - (e + 1 - i) + len(t) + 1 > MAXLINE:
                        self.err(6, True, "expanded line too long")
                    b = b[:i] + t + b[e + 1:]
                    argend = i + len(t)
                    i -= 1
                    self.hit("macarg")
            i += 1
        stmt = b if out_end is None else b[:out_end]
        return stmt.rstrip(" "), comment

    def findext(self, s):
        """Splits the extension off a mnemonic."""
        self.mnext = -1
        self.extstr = None
        if s[:1] == ".":
            return s
        k = s.find(".")
        if k < 0:
            return s
        ext = s[k + 1:]
        self.extstr = ext
        a, b = low1(ext[:1]), low1(ext[1:2])
        if ext[:1] == "":
            a = " "
        m = -1
        if a == "s":
            m = OTHER_ENDIAN
        elif a in "0i" or ext[:1] in ("\x10",):
            m = {"x": ZX, "y": ZY, "n": INDWORD}.get(b, IMP)
        elif a in "dbz":
            m = {"x": BYTEADRX, "y": BYTEADRY, "i": BITMOD, "b": BITBRAMOD}.get(b, BYTEADR)
        elif a in "ewa":
            m = {"x": WORDADRX, "y": WORDADRY}.get(b, WORDADR)
        elif a == "l":
            m = LONG
        elif a == "r":
            m = REL
        elif a == "u":
            m = BSS
        self.mnext = m
        return s[:k]

    def findmne(self, s):
        if s[:1] == ".":
            s = s[1:]
        s = lower(s)
        h = self.mnes.get(s)
        if h is None:
            d = DIRECTIVES.get(s)
            if d is not None:
                return (d, s)
        return h

    def dynarg(self, text, stop=","):
        """Evaluates a label argument; None when it is not known."""
        t = text[:MAXLINE - 1]
        for k, c in enumerate(t):
            if c in stop:
                t = t[:k]
                break
        it = self.eval(t, 0)[0]
        if it.flags & UNKNOWN:
            return None
        return "%d" % it.value

    def parse(self, b):
        """Splits a line into label, mnemonic and operand; returns the
        mnemonic's meaning and the line as it is kept for macro bodies."""
        n = len(b)
        i = 0
        while i < n and b[i] == " ":
            i += 1
        if i < n and b[i] == "^":
            i += 1
            while i < n and b[i] == " ":
                i += 1
        elif i < n and b[i] == "#":
            b = b[:i] + " " + b[i + 1:]
        else:
            i = 0
        label = ""
        undefined = False
        while i < n and b[i] != " " and b[i] != "=":
            c = b[i]
            if c == ":":
                i += 1
                break
            if c == ",":
                self.hit("dynlabel")
                if b[i + 1:i + 2] == '"':
                    i += 2
                    while i < n and b[i] not in '" ,:':
                        label += b[i]
                        i += 1
                    if i < n and b[i] == '"':
                        i += 1
                    else:
                        undefined = True
                        self.err(6, False, b)
                else:
                    v = self.dynarg(b[i + 1:], ", =:")
                    if v is None:
                        undefined = True
                    else:
                        label += v
                    i += 1
                    while i < n and b[i] not in " =,:":
                        i += 1
                continue
            if c == "\x80":
                b = b[:i] + " " + b[i + 1:]
            label += b[i]
            i += 1
        if undefined:
            label = ""
        self.av0 = label
        while i < n and b[i] == " ":
            i += 1
        if i < n and b[i] == "=":
            mn = "="
            i += 1
        else:
            j = i
            while j < n and b[j] != " ":
                j += 1
            mn = b[i:j].replace("\x80", " ")
            b = b[:i] + mn + b[j:]
            i = j
        self.av1 = self.findext(mn)
        m = self.findmne(self.av1)
        while i < n and b[i] == " ":
            i += 1
        out = []
        rest = b[i:]
        prev = ""
        for c in rest:
            if c == " " and prev == " ":
                continue
            out.append(c)
            prev = c
        self.av2 = "".join(out).replace("\x80", " ")
        b = b[:i] + rest.replace("\x80", " ")
        if m is not None:
            if m[0] == "macro":
                self.ndecl += 1
            if m[0] == "endm" and m[1] == "endm":
                self.nclose += 1
        return m, b

    def active(self):
        t = self.ifs[-1]
        return t.xtrue and t.acctrue

    def outlist(self, comment=""):
        if self.inc.nolist:
            return
        mark = " " if self.active() else "-"
        if len(self.gen) > 4:
            mark = "*"
        self.listing.append((self.inc.lineno, bool(self.pflags & SBSS), self.plab, bool(self.pflags & UNKNOWN),
                             bytes(self.gen[:4]), mark, self.av0, self.av1,
                             "" if self.extstr is None else "." + self.extstr, self.av2, comment))
        self.listlog.append(("line", self.inc.lineno))
        self.gen = b""
        self.extstr = None

    # -- passes ------------------------------------------------------------
    def run(self):
        r = Result()
        r.unresolved = None
        try:
            r.code = self.assemble()
            r.abort = False
        except Stop as e:
            r.code = e.code
            r.abort = e.abort
        except RecursionError:
            raise Unsupported("nesting depth")
        r.model = self
        r.image = bytes(self.image)
        r.emits = self.emits
        r.errors = self.errors
        r.msgs = self.msgs
        r.symbols = self.syms
        r.passes = self.npass
        r.listing = self.listing
        r.listlog = self.listlog
        r.reports = self.reports
        r.stats = self.stats
        r.puts = self.puts
        return r

    def pfopen(self, name):
        if name == "":
            return None
        d = self.files.get(os.path.normpath(name))
        if d is not None:
            return d
        if ":" in name:
            return None
        for inc in self.incdirs:
            p = inc if inc == "" or inc[-1] in ":/" else inc + "/"
            d = self.files.get(os.path.normpath(p + name))
            if d is not None:
                return d
        return None

    def pushinclude(self, name):
        d = self.pfopen(name)
        if self.inclevel >= 120:
            self.err(38, True, name)
        if d is None:
            self.err(2)
            self.again(W_INCLUDE)
            return
        f = IncN(name, File(d))
        f.next_ = self.inc
        f.saveml, self.mlflag = self.mlflag, False
        self.inc = f
        self.inclevel += 1
        self.included.append(name)
        self.hit("include")

    def assemble(self):
        for kind, name, text in self.cmdline:
            self.av0 = name
            if kind == "M":
                self.d_eqm(text, "eqm")
            else:
                self.d_set(text, "set")
        self.started = True
        self.ifs = [If(None, True, True, True)]
        old = (-1, 0, 0)
        while True:
            self.cseg = self.initial
            self.orgfill = 255
            self.listmode = True
            self.localidx = self.lastlocalidx = 0
            self.dolidx = self.lastdolidx = 0
            self.symcount = 0
            self.fclear = True
            self.checksum = 0
            self.image = bytearray()
            self.emits = []
            self.listing = []
            self.listlog = []
            self.forg = self.seekback = self.seglen = 0
            self.included = []
            self.returned = []
            self.pushinclude(self.main)
            self.onepass()
            if self.reports is not None:
                self.reports.append(self.report())
            if not self.redo and self.fmt == 2 and not self.fclear:
                self.patchlen()
            if self.mlflag:
                return 41
            if not self.redo:
                break
            state = (self.redo, self.why, self.reval)
            if not self.allpasses and state == old:
                return 3
            old = state
            self.redo = self.why = self.reval = 0
            self.redo_if = (self.redo_if << 1) & 0xFFFFFFFFFFFFFFFF
            self.npass += 1
            if self.npass > self.maxpasses:
                self.errors.append((None, 0, 4, ERRTEXT[4] % self.npass))
                self.inc = None
                # reported outside of any file, which ends the run
                return 4
            self.errors = []
            self.msgs = ""
            for y in self.syms.values():
                y.flags &= ~REF
            for s in self.segs:
                s.flags = (s.flags & SBSS) | UNKNOWN
                s.rflags = s.initflags = s.initrflags = UNKNOWN
                s.org = s.rorg = 0
        code = 5 if self.fatal.get(self.npass) else 0
        if self.ndecl != self.nclose:
            return 40
        return code

    def report(self):
        """What is known at the end of a pass: segments, files, symbols, whether another pass is needed."""
        def known(value, flags):
            return None if flags & UNKNOWN else w64(value)
        return {"segs": [(s.name, bool(s.flags & SBSS), known(s.initorg, s.initflags), known(s.initrorg, s.initrflags),
                          known(s.org, s.flags), known(s.rorg, s.rflags)) for s in self.segs],
                "files": self.included, "back": self.returned, "redo": self.redo, "why": self.why,
                "symbols": {n: (y.value, y.flags, y.string) for n, y in self.syms.items()}}

    def onepass(self):
        while self.inc is not None:
            while True:
                inc = self.inc
                if inc.macro:
                    if inc.pos >= len(inc.lines):
                        self.av0 = ""
                        self.d_endm("", "mexit")
                        continue
                    buf = inc.lines[inc.pos]
                    inc.pos += 1
                else:
                    buf = inc.fi.gets()
                    if buf is None:
                        break
                self.linecount += 1
                if self.linecount > self.max_lines:
                    raise Unsupported("too many lines")
                inc.lineno += 1
                if not inc.macro:
                    self.checklost(inc.fi, buf)
                stmt, comment = self.cleanup(buf, False)
                m, _ = self.parse(stmt)
                if self.av1 != "":
                    if m is not None:
                        if m[0] in ALWAYS or self.active():
                            self.hit("d:" + m[0])
                            getattr(self, "d_" + m[0])(self.av2, m[1] if len(m) == 2 else m)
                    elif self.active():
                        self.err(10, False, self.av1)
                elif self.active():
                    self.programlabel()
                if self.listmode:
                    self.outlist(comment)
                self.gen = b""
            while self.reps and self.reps[-1].file is self.inc:
                self.reps.pop()
            while self.ifs[-1].file is self.inc:
                self.ifs.pop()
            self.mlflag = self.mlflag or self.inc.saveml
            self.inclevel -= 1
            self.inc = self.inc.next_
            if self.inc is not None:
                self.returned.append(self.inc.name)

    # -- directives --------------------------------------------------------
    def d_processor(self, s, name):
        prev = self.cpu
        self.cpu = 0
        c = CPUS.get(s)
        if c:
            if not self.cpu_called:
                for t in c[2]:
                    self.mnes.update(tables()[t])
            self.cpu, self.msb = c[0], c[1]
        self.cpu_called = True
        if not self.cpu:
            self.err(27, True, s)
        if prev and prev != self.cpu:
            self.err(30, True, s)

    def d_mne(self, s, mne):
        _, name, mflags, modes = mne
        seg = self.cseg
        seg.flags |= REF
        self.programlabel()
        items = self.eval(s, 1)
        for it in items:
            if it.flags & UNKNOWN:
                self.again(W_MNE)
        it = items[0]
        if mflags & MF_IMOD and len(items) > 1:
            it.mode = BITBRAMOD if mflags & MF_REL else BITMOD
        mode = it.mode
        unknown = it.flags & UNKNOWN
        if unknown or it.value >= 0x100:
            size = 2
        else:
            size = 1 if it.value else 0
        while mode not in modes and CVT[mode]:
            mode = CVT[mode]
        if self.cpu == 16502 and modes.get(mode) == 0x42:
            if mode == INDBYTEX:
                mode = INDWORDX
            elif mode == INDBYTE:
                mode = INDWORD
        if mode not in modes:
            self.err(11, False, ("%s %s" % (name, s))[:127])
            self.again(W_MNE)
            return
        force = self.mnext
        if 0 <= force < FORCE:
            mode = force
            om = it.mode
            if om in (INDBYTEX, INDBYTEY):
                self.err(12, False, name)
                self.again(W_MNE)
                return
            if om == BYTEADR_SP:
                mode = WORDADR_SP if force in (WORDADR, WORDADR_SP) else BYTEADR_SP
            elif om == ZY:
                mode = {WORDADR: WORDADRY, WORDADRY: WORDADRY, BYTEADR: BYTEADRY, BYTEADRY: BYTEADRY}.get(force, ZY)
            elif om == ZX:
                mode = {WORDADR: WORDADRX, WORDADRX: WORDADRX, BYTEADR: BYTEADRX, BYTEADRX: BYTEADRX}.get(force, ZX)
            if mode not in modes:
                self.err(12, False, name)
                self.again(W_MNE)
                return
            self.hit("forced")
        wantbyte = force in (IMM8, BYTEADR, BYTEADRX, BYTEADRY, BYTEADR_SP)
        if wantbyte and size > 1:
            self.err(20, False, ("%s %s, user requested byte mode" % (name, s))[:127])
        while size > OPSIZE[mode]:
            nxt = CVT[mode]
            if nxt == 0 or nxt not in modes:
                if unknown:
                    break
                if mode == IMM8 and it.value < 0:
                    break
                if it.value > 255 and not wantbyte:
                    wide = {BYTEADRX: WORDADRX, BYTEADRY: WORDADRY, BYTEADR_SP: WORDADR_SP}.get(mode)
                    if wide is not None and wide in modes:
                        mode = wide
                        break
                self.err(20, False, ("%s %s" % (name, s))[:127])
                break
            mode = nxt
        if mode in (IMM16, WORDADR, WORDADRX, WORDADRY, INDWORD, INDWORDX, WORDADR_SP):
            if self.strict and not -0xFFFF <= it.value <= 0xFFFF:
                self.err(21, False, ("%s %s" % (name, s))[:127])
        elif mode in (IMM8, BYTEADR, BYTEADRX, BYTEADRY, BYTEADR_SP, INDBYTEX, INDBYTEY, INDBYTE,
                      BYTEREL):
            if it.value < -0xFF:
                self.err(20, False, ("negative %s %s" % (name, s))[:127])
        op = modes[mode]
        self.hit("m:%s:%s" % (name, MODE_NAMES[mode]))
        g = [op >> 8, op & 0xFF] if op > 0xFF else [op]
        k = 0                       # next operand
        if mode in (BITMOD, BITBRAMOD):
            if len(items) < 2:
                raise Unsupported("forced bit mode without a list")
            a = items[1]
            if not unknown:
                if not 0 <= it.value <= 7:
                    self.err(22, False, s)
                else:
                    g[0] = (g[0] + (it.value << 1)) & 0xFF
            if not a.flags & UNKNOWN and not -0xFF <= a.value < 0x100:
                self.err(20, False, "%s %d" % (name, a.value) if mode == BITBRAMOD
                         else "unknown %s %d" % (name, a.value))
            g.append(a.value & 0xFF)
            k = 2 if mode == BITBRAMOD else 1
        elif mode == REL:
            k = 0
        else:
            v = it.value
            if OPSIZE[mode] == 1:
                g.append(v & 0xFF)
            elif OPSIZE[mode] == 2:
                g += [(v >> 8) & 0xFF, v & 0xFF] if self.msb else [v & 0xFF, (v >> 8) & 0xFF]
            k = 1
        if mflags & MF_MASK:
            if k < len(items):
                a = items[k]
                if not a.flags & UNKNOWN and not -0xFF <= a.value < 0x100:
                    self.err(20, False, "unknown && > 256 %s %d" % (name, a.value))
                g.append(a.value & 0xFF)
                k += 1
            else:
                self.err(23, True)
        if mflags & MF_REL or mode in (REL, BYTEREL):
            g.append(0)
            if k >= len(items):
                self.err(23, True)
            a = items[k]
            if not a.flags & UNKNOWN:
                rorg = seg.flags & SRORG
                pc = seg.rorg if rorg else seg.org
                pcf = seg.rflags if rorg else seg.flags
                d = 0
                if not pcf & (UNKNOWN | 2):
                    d = w64(a.value - pc - len(g))
                    if d >= 128 or d < -128:
                        self.err(16, False, "%d" % d)
                        self.again(W_BRANCH)
                        d = 0
                g[-1] = d & 0xFF
        self.generate(bytes(g))

    def d_trace(self, s, name):
        self.hit("trace")

    def d_list(self, s, name):
        self.programlabel()
        self.gen = b""
        if s[:7] in ("localof", "LOCALOF"):
            self.inc.nolist = True
        elif s[:7] in ("localon", "LOCALON"):
            self.inc.nolist = False
        elif s[:2] in ("of", "OF"):
            self.listmode = False
        else:
            self.listmode = True

    @staticmethod
    def filename(s):
        if s[:1] == '"':
            s = s[1:]
            k = s.find('"')
            if k >= 0:
                s = s[:k]
        return s

    def d_include(self, s, name):
        self.programlabel()
        it = None
        if not "0" <= s[:1] <= "9":
            it = self.eval(s, 0)[0]
        if it is not None and it.flags & STRING:
            self.pushinclude(it.string)
        else:
            self.pushinclude(self.filename(s))

    def d_incbin(self, s, name):
        self.programlabel()
        items = self.eval(s, 0)
        if not items[0].flags & STRING:
            self.err(43)
            self.again(W_INCBIN)
            return
        fn = self.filename(items[0].string)
        skip = 0
        if len(items) > 1:
            if items[1].flags & UNKNOWN:
                self.err(26, True)
            skip = items[1].value
        d = self.pfopen(fn)
        if d is None:
            self.err(2, True)
        d = d.encode("latin-1")
        if skip < 0:
            raise Unsupported("negative incbin offset")
        d = d[skip:]
        if self.redo:
            self.generate(b"", len(d))
        else:
            for k in range(0, len(d), 1024):
                self.generate(d[k:k + 1024])
        self.gen = b""

    def d_seg(self, s, name):
        for seg in self.segs:
            if seg.name == s:
                self.cseg = seg
                self.programlabel()
                return
        seg = Seg(s)
        self.segs.append(seg)
        self.cseg = seg
        if self.mnext == BSS:
            seg.flags |= SBSS
        self.programlabel()

    def d_hex(self, s, name):
        self.programlabel()
        g = []
        i = 0

        def dig(c):
            if c and c in "0123456789abcdefABCDEF":
                return int(c, 16)
            self.err(6, False, "Bad Hex Digit %s" % c)
            self.puts.append("(Must be a valid hex digit)")
            self.listlog.append(("text", "(Must be a valid hex digit)"))
            return 0
        while i < len(s):
            if s[i] == " ":
                i += 1
                continue
            hi = dig(s[i])
            lo = dig(s[i + 1:i + 2])
            i += 1
            if i >= len(s):
                break
            g.append((hi << 4) + lo)
            i += 1
        self.generate(bytes(g))

    def d_err(self, s, name):
        self.programlabel()
        self.err(17, True)

    def d_dc(self, s, name):
        self.programlabel()
        force = None
        if name[0] != "d":
            force = name[0]
        elif name[1] not in "cv":
            force = "l" if name[1] == "d" else name[1]
        if force:
            self.findext("x." + force)
        vmode = name[1] == "v"
        mac = None
        if vmode:
            k = s.find(" ")
            lab = s if k < 0 else s[:k]
            s = "" if k < 0 else s[k:]
            y = self.find(lab)
            if y is None:
                self.puts.append("EQM label not found")
                self.again(W_DV1)
                return
            if y.flags & MACRO:
                mac = y.string
            else:
                self.puts.append("must specify EQM label for DV")
                if y.flags & UNKNOWN:
                    self.again(W_DV1)
                else:
                    self.err(43)
                return
        g = bytearray()

        def put(v, check):
            m = self.mnext
            if m == WORD_ or m == OTHER_ENDIAN:
                if check and self.strict and not -0xFFFF <= v <= 0xFFFF:
                    self.err(21, False, "%s %s %d" % ("word" if m == WORD_ else "swapped", name, v))
                b = (v & 0xFFFF).to_bytes(2, "big")
                g.extend(b if bool(self.msb) == (m == WORD_) else b[::-1])
            elif m == LONG:
                b = (v & 0xFFFFFFFF).to_bytes(4, "big")
                g.extend(b if self.msb else b[::-1])
            else:
                if check and not -0xFF <= v <= 0xFF:
                    self.err(20, False, "byte %s %d" % (name, v))
                g.append(v & 0xFF)

        for it in self.eval(s, 0):
            if it.flags & UNKNOWN:
                self.again(W_DC)
            if it.flags & STRING:
                for c in it.string:
                    v = ord(c)
                    if vmode:
                        self.special.value, self.special.flags = v, 0
                        t = self.eval(mac, 0)[0]
                        v = t.value
                        if t.flags & UNKNOWN:
                            self.again(W_DV1)
                    put(v, False)
            else:
                v = it.value
                if vmode:
                    self.special.value, self.special.flags = v, it.flags
                    t = self.eval(mac, 0)[0]
                    v = t.value
                    if t.flags & UNKNOWN:
                        self.again(W_DV2)
                put(v, True)
        # all items see the state before the first of them
        for k in range(0, max(len(g), 1), MAXLINE):
            self.generate(bytes(g[k:k + MAXLINE]))
        self.gen = bytes(g[:MAXLINE])

    def d_ds(self, s, name):
        mult = {WORD_: 2, LONG: 4}.get(self.mnext, 1)
        self.programlabel()
        items = self.eval(s, 0)
        fill = items[1].value if len(items) > 1 else 0
        if items[0].flags & UNKNOWN:
            self.again(W_DS)
            return
        if len(items) > 1 and items[1].flags & UNKNOWN:
            self.again(W_DS)
        self.genfill(fill, items[0].value, mult)

    def d_org(self, s, name):
        items = self.eval(s, 0)
        it = items[0]
        seg = self.cseg
        seg.org = it.value & 0xFFFFFFFFFFFFFFFF
        if it.flags & UNKNOWN:
            seg.flags |= UNKNOWN
            self.again(W_OBSCURE)
        else:
            seg.flags &= ~UNKNOWN
        if seg.initflags & UNKNOWN:
            seg.initorg, seg.initflags = it.value, it.flags
        if len(items) > 1:
            self.orgfill = items[1].value & 0xFF
            if items[1].flags & UNKNOWN:
                self.err(26, True)
        self.programlabel()

    def d_rorg(self, s, name):
        items = self.eval(s, 0)
        it = items[0]
        seg = self.cseg
        seg.flags |= SRORG
        if it.mode != IMP:
            seg.rorg = it.value & 0xFFFFFFFFFFFFFFFF
            if it.flags & UNKNOWN:
                seg.rflags |= UNKNOWN
                self.again(W_OBSCURE)
            else:
                seg.rflags &= ~UNKNOWN
            if seg.initrflags & UNKNOWN:
                seg.initrorg, seg.initrflags = it.value, it.flags
        self.programlabel()

    def d_rend(self, s, name):
        self.programlabel()
        self.cseg.flags &= ~SRORG

    def d_align(self, s, name):
        items = self.eval(s, 0)
        it = items[0]
        seg = self.cseg
        rorg = seg.flags & SRORG
        if rorg:
            seg.rflags |= REF
        else:
            seg.flags |= REF
        if not it.flags & UNKNOWN and it.value == 0:
            self.err(9, True)
        fill = 0
        if len(items) > 1:
            if items[1].flags & UNKNOWN:
                self.again(W_ALIGN)
            else:
                fill = items[1].value & 0xFF
        pc, pcf = (seg.rorg, seg.rflags) if rorg else (seg.org, seg.flags)
        if (pcf | it.flags) & UNKNOWN:
            self.again(W_ALIGNR if rorg else W_ALIGNO)
        else:
            if it.value < 0:
                raise Unsupported("negative alignment")
            k = it.value - pc % it.value
            if k != it.value:
                self.genfill(fill, k, 1)
        self.programlabel()

    def d_subroutine(self, s, name):
        self.lastlocalidx += 1
        self.localidx = self.lastlocalidx
        self.programlabel()

    def d_equ(self, s, name):
        it = self.eval(s, 0)[0]
        if self.av0 in (".", "*"):
            self.av0 = "."
            # the origin is assigned; the label is the program counter itself
            av = self.av0
            self.av0 = ""
            if self.cseg.flags & SRORG:
                self.d_rorg(s, name)
            else:
                self.d_org(s, name)
            self.av0 = av
            return
        if self.av0 == "":
            raise Unsupported("EQU without a label")
        y = self.find(self.av0)
        if y is None:
            y = self.create(self.av0, True)
        elif not y.order:
            self.symcount += 1
            y.order = self.symcount
        if not y.flags & UNKNOWN:
            if it.flags & UNKNOWN:
                self.again(W_EQU)
            elif y.value != it.value:
                self.err(19)
                self.again(W_EQUMIS)
        y.value = it.value
        y.flags = it.flags & (UNKNOWN | STRING)
        y.string = it.string
        v = it.value & 0xFFFFFFFFFFFFFFFF
        g = [(v >> 24) & 0xFF, (v >> 16) & 0xFF] if v > 0xFFFF else []
        self.gen = bytes(g + [(v >> 8) & 0xFF, v & 0xFF])

    def d_eqm(self, s, name):
        if self.av0 == "":
            raise Unsupported("EQM without a label")
        y = self.find(self.av0)
        if y is None:
            y = self.create(self.av0, True)
        elif not y.order:
            self.symcount += 1
            y.order = self.symcount
        y.value = 0
        y.flags = STRING | SET | MACRO
        y.string = s

    def d_echo(self, s, name):
        at = len(self.msgs)
        for it in self.eval(s, 0):
            if not it.flags & UNKNOWN:
                if it.flags & STRING:
                    t = it.string[:MAXLINE - 1]
                else:
                    t = "$%x" % (it.value & 0xFFFFFFFFFFFFFFFF)
                self.msgs += " " + t
        self.msgs += "\n"
        self.listlog.append(("echo", self.msgs[at:-1]))

    def d_set(self, s, name):
        i = 0
        while i < len(s) and s[i] not in '" ,':
            i += 1
        if s[i:i + 1] == ",":
            dyn = s[:i][:MAXLINE * 2 - 1]
            undefined = False
            while i < len(s) and s[i] != '"' and s[i] != " ":
                if s[i + 1:i + 2] == '"':
                    i += 2
                    while i < len(s) and s[i] not in '" ,':
                        if len(dyn) < MAXLINE * 2 - 1:
                            dyn += s[i]
                        i += 1
                    if i < len(s) and s[i] == '"':
                        i += 1
                    else:
                        self.err(6, False, s)
                else:
                    v = self.dynarg(s[i + 1:])
                    if v is None:
                        undefined = True
                    else:
                        dyn = (dyn + v)[:MAXLINE * 2 - 1]
                    i += 1
                    while i < len(s) and s[i] not in " ,":
                        i += 1
            if undefined:
                return
            it = self.eval(dyn, 0)[0]
        else:
            it = self.eval(s, 0)[0]
        if self.av0 == "":
            raise Unsupported("SET without a label")
        y = self.find(self.av0)
        if y is None:
            y = self.create(self.av0, True)
        elif not y.order:
            self.symcount += 1
            y.order = self.symcount
        y.value = it.value
        y.flags = it.flags & (UNKNOWN | STRING)
        y.string = it.string

    def d_setstr(self, s, name):
        self.d_set(('"%s"' % s)[:1023], name)

    def d_setsym(self, s, name):
        it = self.eval(s, 0)[0]
        if it.flags & UNKNOWN:
            return
        self.d_set(it.string[:1023] if it.flags & STRING else "", name)

    def d_macro(self, s, name):
        skip = not self.active()
        s = lower(s)
        m = self.findmne(s)
        defined = skip or m is not None
        if not skip and self.listmode:
            self.outlist()
        mac = None
        if not defined:
            mac = Macro()
            mac.name, mac.lines, mac.defpass = s, [], self.npass
            # usable at once, but empty until the definition is complete
            self.mnes[s] = ("call", s, 0, mac)
        elif self.strict and m is not None and m[0] == "call" and m[3].defpass == self.npass:
            self.err(25, True, s)
        elif self.strict and m is not None and m[0] != "call":
            raise Unsupported("macro named like an instruction in strict mode")
        body = []
        fi = self.inc.fi
        while True:
            buf = fi.gets()
            if buf is None:
                self.err(14, True)
            self.linecount += 1
            self.inc.lineno += 1
            self.checklost(fi, buf)
            stmt, comment = self.cleanup(buf, True)
            k, stmt = self.parse(stmt)
            if self.av1 != "" and k is not None and k[0] == "endm" and k[1] == "endm":
                if mac is not None:
                    mac.lines = body
                return
            if not skip and self.listmode:
                self.outlist(comment)
            body.append(stmt)

    def d_call(self, s, mne):
        mac = mne[3]
        self.programlabel()
        if self.mlevel == 32:
            self.err(38, True, " macro [%s] recursion > 32" % mac.name)
        self.mlevel += 1
        args = [s]
        i = 0
        while i < len(s) and s[i] != "\n":
            j = i
            while j < len(s) and s[j] not in "\n,":
                j += 1
            args.append(s[i:j])
            i = j
            if s[i:i + 1] == ",":
                i += 1
            while s[i:i + 1] == " ":
                i += 1
        inc = IncN(mac.name, self.inc.fi)
        inc.macro = True
        inc.next_ = self.inc
        inc.saveidx, inc.savedol = self.localidx, self.dolidx
        inc.lines, inc.args = mac.lines, args
        inc.saveml, self.mlflag = self.mlflag, False
        self.inc = inc
        self.lastlocalidx += 1
        self.localidx = self.lastlocalidx
        self.lastdolidx += 1
        self.dolidx = self.lastdolidx

    def d_end(self, s, name):
        while self.inc.macro:
            self.d_endm("", "endm")
        self.inc.fi.pos = len(self.inc.fi.data)

    def d_endm(self, s, name):
        inc = self.inc
        if inc.macro:
            self.mlevel -= 1
            self.localidx, self.dolidx = inc.saveidx, inc.savedol
            self.mlflag = inc.saveml
            while self.reps and self.reps[-1].file is inc:
                self.reps.pop()
            while self.ifs[-1].file is inc:
                self.ifs.pop()
            self.inc = inc.next_
        else:
            self.puts.append("not within a macro")

    def pushif(self, x):
        t = self.ifs[-1]
        self.ifs.append(If(self.inc, bool(x), bool(t.acctrue and t.xtrue)))

    def d_ifconst(self, s, name):
        if not self.active():
            self.pushif(False)
            return
        self.programlabel()
        self.pushif(self.eval(s, 0)[0].flags == 0)

    def d_ifnconst(self, s, name):
        if not self.active():
            self.pushif(False)
            return
        self.programlabel()
        self.pushif(self.eval(s, 0)[0].flags != 0)

    def d_if(self, s, name):
        if not self.active():
            self.pushif(False)
            return
        self.programlabel()
        it = self.eval(s, 0)[0]
        if it.flags:
            self.again(W_IF)
            self.pushif(False)
            self.ifs[-1].acctrue = False
            self.redo_if |= 1
        else:
            self.pushif(it.value != 0)

    def d_else(self, s, name):
        t = self.ifs[-1]
        if t.acctrue and not t.base:
            self.programlabel()
            t.xtrue = not t.xtrue

    def d_endif(self, s, name):
        t = self.ifs[-1]
        if not t.base:
            if t.acctrue:
                self.programlabel()
            if t.file is not self.inc:
                self.puts.append("too many endif's")
            else:
                self.ifs.pop()

    def d_repeat(self, s, name):
        if not self.active():
            self.pushif(False)
            return
        self.programlabel()
        it = self.eval(s, 0)[0]
        if it.flags & UNKNOWN and it.value <= 0:
            self.again(W_REPEAT)
        if it.value == 0:
            self.pushif(False)
            return
        if it.value < 0:
            self.pushif(False)
            self.err(28)
            return
        r = Rep()
        r.file = self.inc
        r.seek = self.inc.pos if self.inc.macro else self.inc.fi.pos
        r.lineno = self.inc.lineno
        r.count = it.value
        r.saveml = self.mlflag
        r.flags = it.flags
        if r.flags:
            self.again(W_REPEAT)
        self.reps.append(r)
        self.pushif(True)

    def d_repend(self, s, name):
        if not self.active():
            self.d_endif(s, name)
            return
        r = self.reps[-1] if self.reps else None
        if r is not None and r.file is self.inc:
            if r.flags == 0:
                r.count -= 1
                if r.count:
                    if self.inc.macro:
                        self.inc.pos = r.seek
                    else:
                        self.inc.fi.pos = r.seek
                    self.inc.lineno = r.lineno
                    self.mlflag = r.saveml
                    return
            self.reps.pop()
            self.d_endif(s, name)
            return
        self.puts.append("no repeat")

    def d_incdir(self, s, name):
        d = self.filename(s)
        if d not in self.incdirs:
            self.incdirs.append(d)

    # -- F8 ----------------------------------------------------------------
    def f8value(self, s):
        """(value, unresolved)"""
        items = self.eval(s, 0)
        it = items[0]
        if len(items) > 1 or it.mode != BYTEADR:
            self.err(6, True, s)
        if it.flags & UNKNOWN:
            self.again(W_MNE)
            return 0, True
        return it.value & 0xFFFFFFFFFFFFFFFF, False

    def f8scratch(self, s):
        r = {"s": 12, "(is)": 12, "i": 13, "(is)+": 13, "d": 14, "(is)-": 14, "j": 9, "hu": 10, "hl": 11}.get(lower(s))
        if r is not None:
            return r, False
        v, u = self.f8value(s)
        if u:
            return 0, True
        if v > 14:
            self.err(35, True, s)
        return v, False

    def d_f8(self, s, mne):
        name, op = mne[1], mne[3]
        if name == "res":
            return self.d_ds(s, name)
        if name in ("db", "dw", "dd"):
            return self.d_dc(s, name)
        self.hit("m:%s" % name)

        def bad(n):
            self.err(n, False, name + " " + s)
        if name in ("bf", "bt"):
            if s.count(",") != 1:
                bad(6)
                return
            a, b = s.split(",")
            v, u = self.f8value(a)
            if u:
                self.generate(b"\0\0")
                return
            lim = 15 if name == "bf" else 7
            if v > lim:
                bad(33 if name == "bf" else 34)
                v &= lim
            return self.f8branch(op | v, b)
        if name in ("bc", "bm", "bnc", "bno", "bnz", "bp", "br", "br7", "bz"):
            return self.f8branch(op, s)
        self.programlabel()
        if name in ("ins", "outs", "lis"):
            v, u = self.f8value(s)
            if v > 15:
                bad(33)
            self.generate(bytes([(0x70 if name == "lis" else op) | (v & 15)]))
        elif name in ("lisl", "lisu"):
            v, u = self.f8value(s)
            if v > 7:
                bad(34)
            self.generate(bytes([op | (v & 7)]))
        elif name in ("sl", "sr"):
            v, u = self.f8value(s)
            if u:
                self.generate(b"\0")
            elif v in (1, 4):
                self.generate(bytes([op + (0 if v == 1 else 2)]))
            else:
                bad(32)
                self.generate(b"\0")
        elif name in ("as", "asd", "ds", "ns", "xs"):
            v, u = self.f8scratch(s)
            self.generate(bytes([op | v]))
        elif name in ("dci", "jmp", "pi"):
            v, u = self.f8value(s)
            if v > 0xFFFF:
                bad(36)
            self.generate(bytes([op, (v >> 8) & 0xFF, v & 0xFF]))
        elif name in ("ai", "ci", "in", "li", "ni", "oi", "out", "xi"):
            v, u = self.f8value(s)
            if v > 0xFF:
                bad(20)
            self.generate(bytes([op, v & 0xFF]))
        elif name == "lr":
            self.f8lr(s, bad)
        else:
            raise AssertionError(name)

    def f8branch(self, op, s):
        self.programlabel()
        v, u = self.f8value(s)
        if u:
            self.generate(b"\0\0")
            return
        seg = self.cseg
        rorg = seg.flags & SRORG
        pc, pcf = (seg.rorg, seg.rflags) if rorg else (seg.org, seg.flags)
        d = 0
        if not pcf & (UNKNOWN | 2):
            d = w64(v - pc - 1)
            if d > 127 or d < -128:
                t = d & 0xFFFFFFFF
                self.err(16, False, "%d" % (t - (1 << 32) if t >> 31 else t))
                self.again(W_BRANCH)
        self.generate(bytes([op, d & 0xFF]))

    LR = {("a", "is"): 0x0a, ("a", "kl"): 0x01, ("a", "ku"): 0x00, ("a", "ql"): 0x03, ("a", "qu"): 0x02,
          ("dc", "h"): 0x10, ("dc", "q"): 0x0f, ("h", "dc"): 0x11, ("is", "a"): 0x0b, ("k", "p"): 0x08,
          ("kl", "a"): 0x05, ("ku", "a"): 0x04, ("p0", "q"): 0x0d, ("p", "k"): 0x09, ("q", "dc"): 0x0e,
          ("ql", "a"): 0x07, ("qu", "a"): 0x06, ("w", 9): 0x1d, (9, "w"): 0x1e}
    NAMES = {"a": "a", "dc0": "dc", "dc": "dc", "h": "h", "is": "is", "k": "k", "ku": "ku", "kl": "kl",
             "pc0": "p0", "p0": "p0", "pc1": "p", "p": "p", "q": "q", "qu": "qu", "ql": "ql", "w": "w"}

    def f8lr(self, s, bad):
        if s.count(",") != 1:
            bad(6)
            return
        a, b = s.split(",")
        if a[-1:] == " ":
            a = a[:-1]
        if b[:1] == " ":
            b = b[1:]
        regs = []
        for t in (a, b):
            r = self.NAMES.get(lower(t))
            if r is None:
                r, u = self.f8scratch(t)
                if u:
                    self.generate(b"\0")
                    return
            regs.append(r)
        d, r = regs
        op = self.LR.get((d, r))
        if op is None:
            if d == "a" and isinstance(r, int):
                op = 0x40 | r
            elif r == "a" and isinstance(d, int):
                op = 0x50 | d
        if op is None:
            self.err(37, True, "lr " + s)
        self.generate(bytes([op]))


WORD_ = WORDADR


class IncN(Inc):
    __slots__ = ("next_",)


def assemble(files, **kw):
    return Asm(files, **kw).run()
