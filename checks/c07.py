import re
from gen import isa, prog
from model import refasm as M
from . import common, isa_common

ID = "C07"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor over the product of F8 instructions and operands, legal and illegal"
NOTE = ("All register pairs of LR, all register, nibble, byte and address operands with their neighbours outside the "
        "range, written as number, symbol or forward reference, and random F8 programs, compared with a reference "
        "assembler.")
RULE = "distinct F8 statements whose bytes (or refusal) were compared, plus instructions seen in random programs"
ASSUME = common.ASSUME

REGS = sorted(M.Asm.NAMES) + isa.F8_SCRATCH + ["0", "1", "8", "9", "10", "11", "12", "13", "14", "15", "16", "-1", "r5", "zz"]


def plan():
    res = []
    for a in REGS:
        for b in REGS:
            res.append("lr %s,%s" % (a, b))
    for n in ("as", "asd", "ds", "ns", "xs"):
        for a in isa.F8_SCRATCH + ["a", "w", "h", "q", "k", "is", "ku", "$ff"] + [str(k) for k in range(-2, 18)]:
            res.append("%s %s" % (n, a))
    for n in ("ins", "outs", "lis"):
        res += ["%s %d" % (n, k) for k in range(-2, 19)]
    for n in ("lisl", "lisu"):
        res += ["%s %d" % (n, k) for k in range(-2, 11)]
    for n in ("sl", "sr"):
        res += ["%s %d" % (n, k) for k in range(-2, 8)]
    for n in ("ai", "ci", "in", "li", "ni", "oi", "out", "xi"):
        res += ["%s %d" % (n, k) for k in (-1, 0, 1, 127, 128, 254, 255, 256, 257, 65536, 1 << 32)]
    for n in ("dci", "jmp", "pi"):
        res += ["%s %d" % (n, k) for k in (-1, 0, 255, 256, 0x1234, 65534, 65535, 65536, 65537, 1 << 32)]
    for n in ("bf", "bt"):
        for k in range(-1, 18):
            for t in (".", ".+5"):
                res.append("%s %d,%s" % (n, k, t))
    for n in ("bc", "bm", "bnc", "bno", "bnz", "bp", "br", "br7", "bz", "bf 3,", "bt 3,", "bf 0,", "bt 0,"):
        for d in (-130, -129, -128, -127, -126, -1, 0, 1, 2, 127, 128, 129, 130, 300, -300):
            res.append("%s .%+d" % (n, d))
    zero = [n for n, m, f in isa.table("f8") if m == M.IMP]
    for n in zero:
        for op in ("", "1", "a"):
            res.append("%s %s" % (n, op))
    for n in isa.names("f8"):
        if n in ("db", "dw", "dd", "res"):
            continue
        for op in ("", ",", "1,2,3", "#1", "(1)", "1,x", '"a"', "a,b,c"):
            res.append("%s %s" % (n, op))
    for n, vals in (("db", "-256,255"), ("db", "256"), ("db", '"abc",1'), ("dw", "$1234,-1"), ("dw", '"ab"'),
                    ("dd", "$12345678,1"), ("res", "3,$ff"), ("res", "0"), ("res.w", "2,$1234"), ("ds.w", "1")):
        res.append("%s %s" % (n, vals))
    others = sorted({n for c in isa.CPUS for n in isa.names(c)} - set(isa.names("f8")) - set(M.DIRECTIVES))
    res += others
    return res


PLAN = plan()


def cases(tier):
    return len(PLAN) + (7000 if tier == "quick" else 50000)


def case(r, i, tier):
    cpu = r.choice(isa.SPELL["f8"])
    if i < len(PLAN):
        s = PLAN[i]
        mn, _, op = s.partition(" ")
        tailtext = "zz equ 3\nr5 equ 5\n"
        pre = ""
        k = r.random()
        if k < .15:
            s = s.upper()
        elif k < .3:
            s = s.replace(",", ", ")
        elif k < .4 and op.lstrip("-").isdigit():
            s = "%s fw" % mn
            tailtext += "fw equ %s\n" % op
        elif k < .5 and op.lstrip("-").isdigit():
            s = "%s bk" % mn
            pre = "bk equ %s\n" % op
        elif k < .6:
            s = s.replace(" .", " fwl-fwl+.")
            tailtext += "fwl\n"
        elif k < .75:               # numbers among other operands as symbols defined earlier or later
            t = re.findall(r"(?:^|,)(\d+)(?=,|$)", op)
            for j, d in enumerate(t):
                if r.random() < .7:
                    op = re.sub(r"(^|,)%s(?=,|$)" % d, r"\g<1>yy%d" % j, op, count=1)
                    if r.random() < .6:
                        tailtext += "yy%d equ %s\n" % (j, d)
                    else:
                        pre += "yy%d equ %s\n" % (j, d)
            s = "%s %s" % (mn, op)
        org = "$1000"
        if r.random() < .1:         # an origin not known in the first pass
            org = "later"
            tailtext += "later equ $1000\n"
        text = "\tprocessor %s\n\torg %s\n%s\tnop\nhere\t%s\n\tnop\n\tdc.w here\n%s" % (cpu, org, pre, s, tailtext)
        return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "plan", "cpu": "f8"}
    w = dict(prog.DEFAULT, instr=60, branch=10, macro=2, call=3, include=0, incbin=0, echo=0, list=0)
    p = prog.Prog(r, cpu="f8", size=r.choice([8, 20, 40]), weights=w, errors=r.choice([0, 0, 0, .03]))
    return {"files": p.build(), "args": ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin"], "kind": "random", "cpu": "f8"}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if p is None or o is None:
        return
    v.count("kind " + case["kind"] + (" ok" if p.code == 0 else " refused"))
    if case["kind"] == "plan":
        v.saw(case["files"]["main.asm"])
    else:
        common.stats_seen(v, p)
    v.count("instructions", sum(n for k, n in p.stats.items() if k.startswith("m:")))


def need(tier):
    return {"instructions": 20000, "kind plan ok": 300, "kind plan refused": 1000, "kind random ok": 1500}
