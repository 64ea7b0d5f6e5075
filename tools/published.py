#!/usr/bin/env python3
"""The published instruction sets, written down from the rules of their opcode maps, against model/opcodes.json.

Nothing here comes from the program under test: opcodes follow from rows and columns of each processor's map.
Prints what differs; run by tools/setup.py.
"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

IMP, IMM, IMM2, DIR, DIRX, DIRY, ABS, ABSX, ABSY, REL, ZPREL, XIND, INDY, IND, INDX, ZIND, IX0, _, BIT, BITBR, SP1, SP2 = range(22)
BRANCH68 = "bra brn bhi bls bcc bcs bne beq".split()


# no such instructions are published; the program has opcodes for them all the same, and the model follows it
EXTRA = {("65c02", "jmp", XIND), ("65c02", "jmp", ZIND)} | {("65c02", "nop", m) for m in (IMM, DIR, DIRX, ABS, ABSX)}


def put(t, name, mode, op):
    t.setdefault(name, {})[mode] = op


def several(t, names, mode, first, step=1):
    for k, n in enumerate(names.split()):
        if n != "-":
            put(t, n, mode, first + k * step)


def mos6502():
    t = {}
    # column 01: eight operations by eight modes
    for k, n in enumerate("ora and eor adc sta lda cmp sbc".split()):
        for m, c in ((XIND, 1), (DIR, 5), (IMM, 9), (ABS, 13), (INDY, 17), (DIRX, 21), (ABSY, 25), (ABSX, 29)):
            if (n, m) != ("sta", IMM):
                put(t, n, m, k * 32 + c)
    # column 10: shifts, increments, X
    for k, n in enumerate("asl rol lsr ror stx ldx dec inc".split()):
        for m, c in ((IMM, 2), (DIR, 6), (IMP, 10), (ABS, 14), (DIRX, 22), (ABSX, 30)):
            if m == IMM and n != "ldx" or m == IMP and k > 3 or n == "stx" and m == ABSX:
                continue
            if n in ("stx", "ldx"):
                m = {DIRX: DIRY, ABSX: ABSY}.get(m, m)
            put(t, n, m, k * 32 + c)
    # column 00
    for n, k in (("bit", 1), ("sty", 4), ("ldy", 5), ("cpy", 6), ("cpx", 7)):
        put(t, n, DIR, k * 32 + 4)
        put(t, n, ABS, k * 32 + 12)
        if k > 4:
            put(t, n, IMM, k * 32)
    t["sty"][DIRX], t["ldy"][DIRX], t["ldy"][ABSX] = 0x94, 0xb4, 0xbc
    t.update(jmp={ABS: 0x4c, IND: 0x6c}, jsr={ABS: 0x20})
    several(t, "bpl bmi bvc bvs bcc bcs bne beq", REL, 0x10, 32)
    several(t, "php plp pha pla dey tay iny inx", IMP, 0x08, 16 * 2)
    several(t, "clc sec cli sei tya clv cld sed", IMP, 0x18, 16 * 2)
    several(t, "txa txs tax tsx dex", IMP, 0x8a, 16)
    put(t, "nop", IMP, 0xea)
    several(t, "brk - rti rts", IMP, 0, 0x20)
    return t


def undocumented():
    """Column 11 does what columns 01 and 10 do together."""
    t = mos6502()
    for k, n in enumerate("slo rla sre rra - - dcp isb".split()):
        if n != "-":
            for m, c in ((XIND, 3), (DIR, 7), (ABS, 15), (INDY, 19), (DIRX, 23), (ABSY, 27), (ABSX, 31)):
                put(t, n, m, k * 32 + c)
    t["sax"] = {XIND: 0x83, DIR: 0x87, ABS: 0x8f, DIRY: 0x97}
    t["lax"] = {XIND: 0xa3, DIR: 0xa7, ABS: 0xaf, INDY: 0xb3, DIRY: 0xb7, ABSY: 0xbf}
    t.update(anc={IMM: 0x0b}, asr={IMM: 0x4b}, arr={IMM: 0x6b}, ane={IMM: 0x8b}, lxa={IMM: 0xab}, sbx={IMM: 0xcb}, las={ABSY: 0xbb},
             sha={INDY: 0x93, ABSY: 0x9f}, shs={ABSY: 0x9b}, shx={ABSY: 0x9e}, shy={ABSX: 0x9c})
    t["nop"].update({IMM: 0x80, DIR: 0x04, DIRX: 0x14, ABS: 0x0c, ABSX: 0x1c})
    return t


def wdc65c02():
    t = mos6502()
    for k, n in enumerate("ora and eor adc sta lda cmp sbc".split()):
        put(t, n, ZIND, k * 32 + 0x12)
    t["bit"].update({IMM: 0x89, DIRX: 0x34, ABSX: 0x3c})
    t.update(bra={REL: 0x80}, ina={IMP: 0x1a}, dea={IMP: 0x3a}, phy={IMP: 0x5a}, ply={IMP: 0x7a}, phx={IMP: 0xda}, plx={IMP: 0xfa},
             stz={DIR: 0x64, DIRX: 0x74, ABS: 0x9c, ABSX: 0x9e}, tsb={DIR: 4, ABS: 0x0c}, trb={DIR: 0x14, ABS: 0x1c}, wai={IMP: 0xcb}, stp={IMP: 0xdb})
    t["jmp"][INDX] = 0x7c
    for k in range(8):
        t["rmb%d" % k] = {DIR: k * 16 + 7}
        t["smb%d" % k] = {DIR: k * 16 + 0x87}
        t["bbr%d" % k] = {ZPREL: k * 16 + 15}
        t["bbs%d" % k] = {ZPREL: k * 16 + 0x8f}
    return t


def branches68(t):
    several(t, " ".join(BRANCH68), REL, 0x20)
    t["bhs"], t["blo"] = t["bcc"], t["bcs"]


def m6803():
    t = {}
    branches68(t)
    several(t, "bvc bvs bpl bmi bge blt bgt ble", REL, 0x28)
    for base, r in ((0x80, "a"), (0xc0, "b")):
        for k, n in enumerate("sub cmp sbc - and bit lda sta eor adc ora add".split()):
            if n == "-":
                continue
            n += r
            for m, row in ((IMM, 0), (DIR, 0x10), (DIRX, 0x20), (ABS, 0x30)):
                if n[:3] != "sta" or m != IMM:
                    put(t, n, m, base + row + k)
    for n, o in (("subd", 0x83), ("addd", 0xc3), ("cpx", 0x8c), ("ldd", 0xcc), ("lds", 0x8e), ("ldx", 0xce)):
        t[n] = {IMM2: o, DIR: o + 0x10, DIRX: o + 0x20, ABS: o + 0x30}
    for n, o in (("std", 0xcd), ("sts", 0x8f), ("stx", 0xcf)):
        t[n] = {DIR: o + 0x10, DIRX: o + 0x20, ABS: o + 0x30}
    t["bsr"], t["jsr"], t["jmp"] = {REL: 0x8d}, {DIR: 0x9d, DIRX: 0xad, ABS: 0xbd}, {DIRX: 0x6e, ABS: 0x7e}
    for k, n in enumerate("neg - - com lsr - ror asr asl rol dec - inc tst - clr".split()):
        for n in [n, "lsl"] if n == "asl" else [n] if n != "-" else []:
            t[n] = {DIRX: 0x60 + k, ABS: 0x70 + k}
            t[n + "a"], t[n + "b"] = {IMP: 0x40 + k}, {IMP: 0x50 + k}
    several(t, "- nop - - lsrd asld tap tpa inx dex clv sev clc sec cli sei sba cba - - - - tab tba - daa - aba", IMP, 0)
    t["lsld"] = t["asld"]
    several(t, "tsx ins pula pulb des txs psha pshb pulx rts abx rti pshx mul wai swi", IMP, 0x30)
    return t


def hd6303():
    return {"xgdx": {IMP: 0x18}, "slp": {IMP: 0x1a}, "aim": {DIR: 0x71, DIRX: 0x61}, "oim": {DIR: 0x72, DIRX: 0x62},
            "eim": {DIR: 0x75, DIRX: 0x65}, "tim": {DIR: 0x7b, DIRX: 0x6b}}


def m68hc11():
    t = m6803()
    for n, ms in t.items():
        if DIRX in ms:
            ms[DIRY] = 0x1800 + ms[DIRX]
    for n in ("cpx", "ldx", "stx"):
        t[n][DIRY] = 0xcd00 + t[n][DIRX]
    for n, o in (("cpy", "cpx"), ("ldy", "ldx"), ("sty", "stx")):
        t[n] = {m: 0x1800 + c for m, c in t[o].items() if m not in (DIRX, DIRY)}
        t[n].update({DIRX: 0x1a00 + t[o][DIRX], DIRY: 0x1800 + t[o][DIRX]})
    t["cpd"] = {m: 0x1a00 + c for m, c in t["subd"].items() if m != DIRY}
    t["cpd"][DIRY] = 0xcd00 + t["subd"][DIRX]
    for x, y in (("abx", "aby"), ("dex", "dey"), ("inx", "iny"), ("pshx", "pshy"), ("pulx", "puly"), ("tsx", "tsy"), ("txs", "tys")):
        t[y] = {IMP: 0x1800 + t[x][IMP]}
    t.update(xgdx={IMP: 0x8f}, xgdy={IMP: 0x188f}, stop={IMP: 0xcf}, idiv={IMP: 2}, fdiv={IMP: 3}, test={IMP: 0})
    for n, d, x in (("bset", 0x14, 0x1c), ("bclr", 0x15, 0x1d), ("brset", 0x12, 0x1e), ("brclr", 0x13, 0x1f)):
        t[n] = {DIR: d, DIRX: x, DIRY: 0x1800 + x}
    return t


def m68705(hc08=False):
    t = {}
    branches68(t)
    several(t, "bhcc bhcs bpl bmi bmc bms bil bih", REL, 0x28)
    t.update(bset={BIT: 0x10}, bclr={BIT: 0x11}, brset={BITBR: 0}, brclr={BITBR: 1})
    for k, n in enumerate("neg - - com lsr - ror asr asl rol dec - inc tst - clr".split()):
        for n in [n, "lsl"] if n == "asl" else [n] if n != "-" else []:
            t[n] = {DIR: 0x30 + k, DIRX: 0x60 + k, IX0: 0x70 + k}
            t[n + "a"], t[n + "x"] = {IMP: 0x40 + k}, {IMP: 0x50 + k}
            if hc08:
                t[n][SP1] = 0x9e60 + k
            else:
                t[n][IMP] = 0x40 + k        # the accumulator when no operand is written
    for k, n in enumerate("sub cmp sbc cpx and bit lda sta eor adc ora add jmp jsr ldx stx".split()):
        t[n] = {DIR: 0xb0 + k, ABS: 0xc0 + k, ABSX: 0xd0 + k, DIRX: 0xe0 + k, IX0: 0xf0 + k}
        if n not in ("sta", "stx", "jmp", "jsr"):
            t[n][IMM] = 0xa0 + k
        if hc08 and n not in ("jmp", "jsr"):
            t[n].update({SP1: 0x9ee0 + k, SP2: 0x9ed0 + k})
    t["bsr"] = {REL: 0xad}
    several(t, "tax clc sec cli sei rsp nop - txa", IMP, 0x97)
    several(t, "rti rts - swi", IMP, 0x80)
    if not hc08:
        t["inx"], t["dex"] = t["incx"], t["decx"]
    return t


def m68hc08():
    t = m68705(True)
    several(t, "tap tpa pula psha pulx pshx pulh pshh clrh - stop wait", IMP, 0x84)
    several(t, "bge blt bgt ble", REL, 0x90)
    t.update(thxs={IMP: 0x94}, tshx={IMP: 0x95}, mul={IMP: 0x42}, div={IMP: 0x52}, nsa={IMP: 0x62}, daa={IMP: 0x72}, ais={IMM: 0xa7}, aix={IMM: 0xaf},
             sthx={DIR: 0x35}, ldhx={IMM2: 0x45, DIR: 0x55}, cphx={IMM2: 0x65, DIR: 0x75}, mov={DIR: 0x4e, IMM: 0x6e}, movp={DIRX: 0x5e}, xmov={DIR: 0x7e},
             cbeq={DIR: 0x31, XIND: 0x61, IX0: 0x71, SP1: 0x9e61}, cbeqa={REL: 0x41}, cbeqx={REL: 0x51},
             dbnz={DIR: 0x3b, DIRX: 0x6b, IX0: 0x7b, SP1: 0x9e6b}, dbnza={REL: 0x4b}, dbnzx={REL: 0x5b})
    return t


def f8():
    t = {}
    several(t, "lm st com lnk di ei pop - - inc", IMP, 0x16)
    several(t, "am amd nm om xm cm adc", IMP, 0x88)
    t.update(pk={IMP: 12}, clr={IMP: 0x70}, nop={IMP: 0x2b}, xdc={IMP: 0x2c})
    ops = {"sr": 0x12, "sl": 0x13, "ds": 0x30, "lisu": 0x60, "lisl": 0x68, "ins": 0xa0, "outs": 0xb0, "as": 0xc0, "asd": 0xd0, "xs": 0xe0, "ns": 0xf0,
           "bt": 0x80, "bp": 0x81, "bc": 0x82, "bz": 0x84, "br7": 0x8f, "bf": 0x90, "br": 0x90, "bm": 0x91, "bnc": 0x92, "bnz": 0x94, "bno": 0x98}
    for k, n in enumerate("li ni oi xi ai ci in out pi jmp dci".split()):
        ops[n] = 0x20 + k
    return t, ops


F8LR = {("a", "ku"): 0, ("a", "kl"): 1, ("a", "qu"): 2, ("a", "ql"): 3, ("ku", "a"): 4, ("kl", "a"): 5, ("qu", "a"): 6, ("ql", "a"): 7,
        ("k", "p"): 8, ("p", "k"): 9, ("a", "is"): 10, ("is", "a"): 11, ("p0", "q"): 13, ("q", "dc"): 14, ("dc", "q"): 15,
        ("dc", "h"): 16, ("h", "dc"): 17, ("w", "j"): 0x1d, ("j", "w"): 0x1e,
        ("w", "9"): 0x1d, ("9", "w"): 0x1e, ("a", "j"): 0x49, ("j", "a"): 0x59,     # J is register 9
        **{("a", str(k)): 0x40 + k for k in range(12)}, **{(str(k), "a"): 0x50 + k for k in range(12)},
        **{("a", n): 0x4c + k for k, n in enumerate("sid")}, **{(n, "a"): 0x5c + k for k, n in enumerate("sid")}}


def f8lr():
    """What the model makes of the register moves."""
    from model import refasm
    names = sorted({n for p in F8LR for n in p})
    res = []
    for a in names:
        for b in names:
            r = refasm.assemble({"main.asm": "\tprocessor f8\n\torg 0\n\tlr %s,%s\n" % (a, b)})
            got = r.image[2] if r.code == 0 else None
            if got != F8LR.get((a, b)):
                res.append(("f8", "lr " + a + "," + b, None, F8LR.get((a, b)), got))
    return len(names) ** 2, res


def differences():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "model", "opcodes.json")) as f:
        have = json.load(f)
    res, n = [], 0
    t8, ops = f8()
    for cpu, want in (("6502", undocumented()), ("65c02", wdc65c02()), ("6803", m6803()), ("hd6303", hd6303()), ("68hc11", m68hc11()),
                      ("68705", m68705()), ("68908", m68hc08()), ("f8", t8)):
        got = {k: {int(m): o for m, o in v["modes"].items()} for k, v in have[cpu].items() if "modes" in v}
        for k in sorted(set(want) | set(got)):
            a, b = want.get(k, {}), got.get(k, {})
            for m in sorted(set(a) | set(b)):
                n += 1
                if a.get(m) != b.get(m) and (cpu, k, m) not in EXTRA:
                    res.append((cpu, k, m, a.get(m), b.get(m)))
    for k, o in ops.items():
        n += 1
        if have["f8"].get(k, {}).get("special") != o:
            res.append(("f8", k, None, o, have["f8"].get(k)))
    m, more = f8lr()
    return n - len(EXTRA) + m, res + more


if __name__ == "__main__":
    n, res = differences()
    for r in res:
        print(r)
    print("%d forms compared, %d differ" % (n, len(res)))
