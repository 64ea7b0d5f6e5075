from gen import isa
from model import refasm as M
from . import common

ID = "C10"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "displacement monitor computed from label addresses, plus reference model"
NOTE = ("All branch instructions at distances around both limits, forwards and backwards, with absolute targets, labels "
        "and the location symbol, in ORG, RORG, BSS-neighbouring and multi-pass code; the displacement is recomputed "
        "from the dumped label addresses and the whole image compared with a reference assembler.")
RULE = "distinct (processor, instruction, distance, direction, origin kind, way of naming the target) decided"
ASSUME = common.ASSUME

DIST = [-140, -131, -130, -129, -128, -127, -126, -125, -124, -3, -2, -1, 0, 1, 2, 3, 100, 123, 124, 125, 126, 127, 128, 129, 130,
        131, 132, 200, 256, 300, -256, -300, 65535, -65536, 32768]


def cases(tier):
    return 18000 if tier == "quick" else 120000


def branches(cpu):
    res = []
    for n, m, f in isa.table(cpu):
        if m == "f8":
            if n in ("bf", "bt", "bc", "bm", "bnc", "bno", "bnz", "bp", "br", "br7", "bz"):
                res.append((n, m, f))
        elif isa.needs_target(m, f):
            res.append((n, m, f))
    return res


def case(r, i, tier):
    cpu = r.choice(list(isa.CPUS))
    n, m, f = r.choice(branches(cpu))
    d = r.choice(DIST) if r.random() < .75 else r.randrange(-135, 136)
    kind = r.choice(["dot", "label", "label", "label", "abs", "expr", "local", "dollar"])
    place = r.choice(["org", "org", "rorg", "rorg", "fwdorg", "zero", "seg"])
    multi = r.random() < .4

    def op(t):
        def val(k):
            return t if k == "t" else {"b": "$12", "n": "3", "m": "7", "i": "5", "4": "5", "3": "5", "w": "$12"}[k]
        return isa.f8operand(r, n, val) if m == "f8" else isa.operand(m, f, val)
    size = 2 if m == "f8" else len(M.assemble({"main.asm": "\tprocessor %s\n\torg 0\n\t%s %s\n" % (cpu, n, op("."))}).image) - 2
    back = 1 if m == "f8" else size        # from the start of the instruction to where counting starts
    lines = ["\tprocessor %s" % r.choice(isa.SPELL[cpu])]
    tail = []
    if place == "org":
        lines.append("\torg $%x" % r.choice([0x1000, 0x400, 0x8000, 0xfe00]))
    elif place == "zero":
        lines.append("\torg 0")
    elif place == "rorg":
        lines += ["\torg $1000", "\tdc 1,2,3", "\trorg $%x" % r.choice([0xf000, 0, 0x80, 0x7ff0, 0x12000])]
    elif place == "fwdorg":
        lines.append("\torg start")
        tail.append("start equ $2000")
    else:
        lines += ["\tseg.u vars", "\torg $80", "\tds 3", "\tseg code", "\torg $3000"]
    if multi:
        lines.append("\tdc.b <later")
        tail.append("later equ $1234")
    if r.random() < .3:
        lines.append("\tds %d,$ea" % r.randrange(1, 300))
    if d > 3000 or d < -3000:
        kind = r.choice(["dot", "abs", "expr"])
    # names that begin like an index register, but are none
    t = r.choice({"local": [".tgt", ".x", ".y_1"], "dollar": ["7$", "x$", "y1$", "sp$"]}.get(
        kind, ["tgt", "tgt", "xt", "Yes", "x_t", "y.t", "X@t", "sp_t", "SPt", "sp.t", "_x", "y0"]))
    here = "" if kind == "dollar" else "here"
    if kind == "dot":
        lines += ["%s\t%s\t%s" % (here, n, op(r.choice([".", "*"]) + "%+d" % (d + back)))]
    elif kind == "abs":
        lines += ["base", "%s\t%s\t%s" % (here, n, op("base%+d" % (d + back)))]
    elif kind == "expr":
        lines += ["%s\t%s\t%s" % (here, n, op("[here%+d]%+d" % (d + back + 5, -5)))]
    else:
        fill = d + back - size            # bytes between the end of the instruction and the target
        if fill >= 0:
            gap = ["\tds %d" % fill] if fill and r.random() < .5 else ["\tdc 0"] * fill if fill <= 140 else ["\tds %d" % fill]
            if r.random() < .2 and fill > 2:
                gap = ["\trepeat %d" % fill, "\tdc.b 1", "\trepend"]
            lines += ["%s\t%s\t%s" % (here, n, op(t))] + gap + [t + "\tdc 1"]
        else:
            gap = -(d + back)
            if gap < 0:
                return case(r, i, tier)
            if kind == "dollar":
                lines.append("glob")
            lines += [t] + (["\tds %d,1" % gap] if gap else []) + ["%s\t%s\t%s" % (here, n, op(t))]
    if place == "rorg":
        lines += ["\trend", "\tdc.w ."]
    if r.random() < .3:                   # from inside a macro or a repeat
        k = next((j for j, s in enumerate(lines) if s.startswith("here\t") or s.startswith("\t" + n)), None)
        if k is not None and kind in ("label", "abs"):
            lines[k:k + 1] = ["\tmac mbr", "\t%s\t{0}" % n, "\tendm", "here\tmbr\t%s" % lines[k].split("\t")[2]]
    if cpu == "f8":                       # DS is an instruction there
        lines = [s.replace("\tds ", "\tres ") for s in lines]
    text = "\n".join(lines + tail) + "\n"
    return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"],
            "key": [cpu, n, m, d, kind, place, multi], "d": d, "size": size, "back": back}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if p is None or o is None or v.kind != "held":
        return
    v.saw(*case["key"], p.code == 0)
    v.count("taken" if p.code == 0 else "refused")
    d = case["d"]
    if "br\t" in case["files"]["main.asm"] and "mac mbr" in case["files"]["main.asm"]:
        v.count("in a macro")
    # the rule itself, without the model
    if (o.code == 0) != (-128 <= d <= 127):
        v.fail("branch out of range accepted" if o.code == 0 else "branch within range refused",
               "distance %d: " % d + (o.out or b"").decode("latin-1")[-300:])
    elif o.code == 0:
        got = common.symbols(o.file("O.sym") or b"")
        names = {g[0]: g[1] for g in got or []}
        img = o.file("O.bin")
        if "here" in names and "org" in case["key"][5] and case["key"][5] == "org":
            base = int(case["files"]["main.asm"].split("org $")[1].split("\n")[0], 16)
            at = names["here"] - base + case["size"] - 1
            if img[at] != d & 0xff:
                v.fail("wrong displacement byte", "%02x instead of %02x" % (img[at], d & 0xff))
            v.count("displacement read")


def need(tier):
    return {"taken": 3000, "refused": 1500, "displacement read": 500, "in a macro": 100}
