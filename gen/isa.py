"""Renders instructions of the supported processors as source text."""
from model import refasm as M

IMPL = {"65c02": {"nop"}, "hd6303": {"aim", "oim", "eim", "tim"}}

# name used in PROCESSOR -> tables
CPUS = {"6502": ["6502"], "65c02": ["65c02"], "6803": ["6803"], "hd6303": ["6803", "hd6303"],
        "68705": ["68705"], "68hc11": ["68hc11"], "f8": ["f8"], "68908": ["68908"]}

SPELL = {"6502": ["6502"], "65c02": ["65c02", "65C02"], "6803": ["6803"], "hd6303": ["hd6303", "HD6303"],
         "68705": ["68705"], "68hc11": ["68hc11", "68HC11"], "f8": ["f8", "F8"], "68908": ["68908", "68hc908"]}

BRANCHY = (M.REL, M.BYTEREL, M.BITBRAMOD)
_cache = {}


def table(cpu):
    """[(mnemonic, mode, flags)] of everything the processor has, without what is documented as unsupported."""
    if cpu not in _cache:
        res, seen = [], {}
        for t in CPUS[cpu]:
            for n, e in M.tables()[t].items():
                seen[n] = (e, t)
        for n, (e, t) in sorted(seen.items()):
            if t == "hd6303" and n in IMPL["hd6303"]:
                continue
            if e[0] == "mne":
                for m in sorted(e[3]):
                    if cpu == "65c02" and n == "nop" and m != M.IMP:
                        continue
                    res.append((n, m, e[2]))
            else:
                res.append((n, "f8", 0))
        _cache[cpu] = res
    return _cache[cpu]


def names(cpu):
    return sorted({n for n, _, _ in table(cpu)})


def needs_target(mode, flags):
    return mode in BRANCHY or bool(flags & M.MF_REL)


def operand(mode, flags, val, short=None):
    """Operand text; val(kind) supplies b(yte), w(ord), i(mm8), I(mm16), n (bit), m(ask), t(arget)."""
    ext = ""
    if flags & M.MF_MASK and mode != M.REL:
        ext += "," + val("m")
    if flags & M.MF_REL and mode != M.BITBRAMOD:
        ext += "," + val("t")
    if mode == M.IMP:
        return ""
    if mode == M.IMM8:
        return "#" + val("i") + ext
    if mode == M.IMM16:
        return "#" + val("I") + ext
    if mode == M.BYTEADR:
        return val("b") + ext
    if mode == M.WORDADR:
        return val("w") + ext
    if mode == M.BYTEADRX:
        return val("b") + ",x" + ext
    if mode == M.BYTEADRY:
        return val("b") + ",y" + ext
    if mode == M.WORDADRX:
        return val("w") + ",x" + ext
    if mode == M.WORDADRY:
        return val("w") + ",y" + ext
    if mode == M.REL:
        return val("m") + "," + val("t") if flags & M.MF_MASK else val("t")
    if mode == M.BYTEREL:
        return val("b") + "," + val("t")
    if mode == M.INDBYTEX:
        return "(" + val("b") + ",x)" + ext
    if mode == M.INDBYTEY:
        return "(" + val("b") + "),y"
    if mode == M.INDWORD:
        return "(" + val("w") + ")"
    if mode == M.INDWORDX:
        return "(" + val("w") + ",x)"
    if mode == M.INDBYTE:
        return "(" + val("b") + ")"
    if mode == M.ZX:
        return (",x" if short and not ext else "0,x") + ext
    if mode == M.BITMOD:
        return val("n") + "," + val("b")
    if mode == M.BITBRAMOD:
        return val("n") + "," + val("b") + "," + val("t")
    if mode in (M.BYTEADR_SP, M.WORDADR_SP):
        return val("b" if mode == M.BYTEADR_SP else "w") + ",sp" + ext
    raise AssertionError(mode)


F8_SCRATCH = ["s", "i", "d", "(is)", "(is)+", "(is)-", "j", "hu", "hl"]
F8_LR = [("a", "is"), ("a", "kl"), ("a", "ku"), ("a", "ql"), ("a", "qu"), ("dc", "h"), ("dc", "q"), ("h", "dc"),
         ("is", "a"), ("k", "p"), ("kl", "a"), ("ku", "a"), ("p0", "q"), ("p", "k"), ("q", "dc"), ("ql", "a"),
         ("qu", "a"), ("w", "j"), ("j", "w"), ("dc0", "h"), ("dc0", "q"), ("h", "dc0"), ("q", "dc0"), ("pc0", "q"),
         ("pc1", "k"), ("k", "pc1"), ("w", "9"), ("9", "w")]


def f8operand(rng, n, val):
    """Operand of an F8 instruction; val as above, with 4 (nibble), 3 (three bits), r (register number)."""
    if n in ("bf",):
        return val("4") + "," + val("t")
    if n == "bt":
        return val("3") + "," + val("t")
    if n in ("bc", "bm", "bnc", "bno", "bnz", "bp", "br", "br7", "bz"):
        return val("t")
    if n in ("ins", "outs", "lis"):
        return val("4")
    if n in ("lisl", "lisu"):
        return val("3")
    if n in ("sl", "sr"):
        return rng.choice(["1", "4"])
    if n in ("as", "asd", "ds", "ns", "xs"):
        return rng.choice(F8_SCRATCH) if rng.random() < .4 else val("r")
    if n in ("dci", "jmp", "pi"):
        return val("w")
    if n in ("ai", "ci", "in", "li", "ni", "oi", "out", "xi"):
        return val("b")
    if n == "lr":
        k = rng.random()
        if k < .5:
            return ",".join(rng.choice(F8_LR))
        s = rng.choice(F8_SCRATCH) if rng.random() < .5 else val("r")
        return "a," + s if k < .75 else s + ",a"
    raise AssertionError(n)
