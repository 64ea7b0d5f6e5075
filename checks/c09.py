import random
from gen import isa, prog
from model import refasm as M
from . import common

ID = "C09"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "range monitor over boundary operands of every instruction and data directive"
NOTE = ("Every instruction field, bit number, mask and data directive gets values at and beyond the ends of its range, "
        "as literal, computed, earlier and later symbol, with and without -S, in macros, repeats and lists; success and "
        "bytes are decided by a reference assembler and, for single data items, by the range rule itself.")
RULE = "distinct (processor, instruction or directive, mode, field, value, way of writing, -S) decided"
ASSUME = common.ASSUME

EDGE = [-65537, -65536, -65535, -32769, -32768, -1000, -257, -256, -255, -254, -129, -128, -127, -1, 0, 1, 7, 8, 9, 127,
        128, 129, 254, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 0x7fffffff, 0x80000000,
        0xffffffff, 0x100000000, 0x100000001, -0x80000000, -0x100000000, 0x1000000000000, 0x10000000000ff]
BITS = [-9, -8, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 128, 255, 256, 257, 263, 0x100000001]
DATA = ["dc", "dc.b", "byte", ".byte", "dc.w", "word", ".word", "dc.l", "long", "dc.s", "dv", "dv.w", "dv.l", "ds", "ds.w",
        "ds.l", "hex"]


# systematic part: every operand field of every instruction at the ends of its range
ENDS = {"n": [-1, 0, 7, 8, 9, 256], "b": [-256, -255, 255, 256, 65536], "i": [-256, -255, 255, 256, 65536],
        "m": [-256, -255, 255, 256, 65536], "w": [-65536, -65535, 65535, 65536], "I": [-65536, -65535, 65535, 65536],
        "4": [-1, 15, 16, 256], "3": [-1, 7, 8, 256], "r": [-1, 14, 15, 16, 256]}
_plan = []


def plan():
    if not _plan:
        for cpu in isa.CPUS:
            for n, m, f in isa.table(cpu):
                if cpu == "f8" and (m != "f8" or n in ("db", "dw", "dd", "res", "sl", "sr", "lr")):
                    continue
                slots = []
                if m == "f8":
                    isa.f8operand(random.Random(3), n, lambda s: slots.append(s) or "1")
                else:
                    isa.operand(m, f, lambda s: slots.append(s) or "1")
                for j, s in enumerate(slots):
                    for v in ENDS.get(s, ()):
                        if s == "w" and cpu == "f8" and v < 0:
                            v = -1
                        for strict in ((False, True) if s in "wI" else (None,)):
                            _plan.append((cpu, n, m, f, j, v, strict))
        for d in ("dc.b", "byte", "dc.w", "word", "dc.l", "dc.s", "dv", "dv.w", "dv.s", "dv.l"):
            for v in EDGE:
                for cpu in ("6502", "6811"):
                    for strict in (False, True):
                        _plan.append((cpu, d, "data", 0, 0, v, strict))
    return _plan


def cases(tier):
    return len(plan()) + (16000 if tier == "quick" else 150000)


def spell(r, v, pre, post):
    k = r.random()
    if k < .4:
        return prog.number(r, v)
    if k < .5:
        d = r.choice([1, 2, 255, 256, 300, 65536])
        return r.choice(["%d+%d" % (v - d, d), "%d-%d" % (v + d, d)])
    n = "v%d" % len(pre + post)
    if k < .7:
        pre.append("%s equ %d" % (n, v))
        return n
    if k < .85:
        post.append("%s equ %d" % (n, v))
        return n
    if k < .93:
        pre.append("%s set %d" % (n, v))
        return n
    pre.append("%s eqm %d+%d" % (n, v - 3, 3))
    return n


def swept(r, i):
    cpu, n, m, f, pick, value, strict = plan()[i]
    pre, post, cnt = [], [], [0]

    def val(s):
        j = cnt[0]
        cnt[0] += 1
        if j == pick:
            return spell(r, value, pre, post)
        return {"b": "$12", "w": "$1234", "i": "5", "I": "6", "n": "2", "m": "3", "t": ".", "4": "3", "3": "3", "r": "3"}[s]

    if strict is None:
        strict = bool(r.randrange(2))
    if m == "data":
        op = spell(r, value, pre, post)
        if n.startswith("dv"):
            pre.append("dvm eqm ..")
            op = "dvm " + op
    elif m == "f8":
        op = isa.f8operand(random.Random(3), n, val)
    else:
        op = isa.operand(m, f, val)
    text = "\tprocessor %s\n\torg $1000\n" % cpu + "\n".join(pre + ["\t%s\t%s" % (n, op), "after"] + post) + "\n\tdc.w after\n"
    return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin"] + (["-S"] if strict else []),
            "key": [repr((cpu, n, m, pick, value)), strict]}


def case(r, i, tier):
    if i < len(plan()):
        return swept(r, i)
    cpu = r.choice([c for c in isa.CPUS if c != "f8"])
    strict = r.random() < .5
    pre, post = [], []
    k = r.random()
    if k < .35:
        d = r.choice(DATA)
        v = r.choice(EDGE)
        items = [prog.number(r, r.randrange(0, 128)) for _ in range(r.choice([0, 0, 1, 3, 20]))]
        t = spell(r, v, pre, post)
        if d in ("ds", "ds.w", "ds.l"):
            line = "\t%s\t%d,%s" % (d, r.randrange(1, 4), t)
        elif d == "hex":
            line = "\thex\t%02x%02x" % (r.randrange(256), v & 255)
        else:
            items.insert(r.randrange(len(items) + 1), t)
            line = "\t%s\t%s" % (d, ",".join(items))
            if d.startswith("dv"):
                pre.append("dvm eqm %s" % r.choice(["..", "..", "..+1", "-..", "..*2"]))
                line = line.replace("\t%s\t" % d, "\t%s\tdvm " % d)
        key = (d, v)
    elif k < .9:
        n, m, f = r.choice(isa.table(cpu))
        while m in (M.IMP, M.ZX, M.ZY) and not isa.needs_target(m, f):
            n, m, f = r.choice(isa.table(cpu))
        slots = []
        isa.operand(m, f, lambda s: slots.append(s) or "1")
        if not slots:
            return case(r, i, tier)
        pick = r.randrange(len(slots))
        cnt = [0]
        vv = [0]

        def val(s):
            j = cnt[0]
            cnt[0] += 1
            if j == pick and s != "t":
                vv[0] = r.choice(BITS if s == "n" else EDGE)
                return spell(r, vv[0], pre, post)
            return {"b": "$12", "w": "$1234", "i": "5", "I": "6", "n": "2", "m": "3", "t": "."}[s]
        op = isa.operand(m, f, val)
        suf = r.choice(["", "", "", "", ".b", ".w", ".z", ".a", ".bx", ".wx", ".by", ".wy"])
        line = "\t%s%s\t%s" % (n, suf, op)
        key = (cpu, n, m, slots[pick], vv[0], suf)
    else:
        n, m, f = r.choice([e for e in isa.table("f8") if e[1] == "f8" and e[0] not in ("db", "dw", "dd", "res")])
        cpu = "f8"
        vals = []

        def val(s):
            if s == "t":
                return "."
            top = {"b": 256, "w": 65536, "4": 16, "3": 8, "r": 15}[s]
            vals.append(r.choice([0, 1, top - 1, top, top + 1, top - 2, top // 2, -1, top * 256]))
            return spell(r, vals[-1], pre, post)
        line = "\t%s\t%s" % (n, isa.f8operand(r, n, val))
        key = (cpu, n, tuple(vals))
    wrap = r.random()
    body = [line]
    if wrap < .12:
        body = ["\tmac mm", line, "\tendm", "\tmm"]
    elif wrap < .2:
        body = ["\trepeat 2", line, "\trepend"]
    elif wrap < .26:
        body = ["\tif 1", line, "\telse", "\tdc 1", "\tendif"]
    elif wrap < .32:
        body = ["\tif 0", line, "\tendif"]
    text = "\tprocessor %s\n\torg $1000\n" % cpu + "\n".join(pre + body + ["after"] + post) + "\n\tdc.w after\n"
    args = ["main.asm", "-f3", "-oO.bin"] + (["-S"] if strict else [])
    return {"files": {"main.asm": text}, "args": args, "key": [repr(key), strict]}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if p is None or o is None:
        return
    v.count("accepted" if p.code == 0 else "refused")
    v.saw(*case["key"], p.code == 0)


def need(tier):
    return {"accepted": 3000, "refused": 3000}
