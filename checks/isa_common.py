"""Shared by the instruction set checks: exhaustive product of instructions and operand shapes, then random programs."""
from gen import isa, prog
from model import refasm as M
from . import common

SHAPES = ["", "#$12", "#$1234", "$12", "$1234", "$12,x", "$1234,x", "$12,y", "$1234,y", "($12,x)", "($12),y",
          "($1234)", "($12)", "($1234,x)", "3,$12", "3,$12,.", "$12,sp", "$1234,sp", "0,x", "0,y", ",x", ",y", ".",
          "$12,.", "$12,$34", "$12,$34,.", "$12,x,$34", "$12,x,$34,.", "$12,y,$34,.", "#$12,$34", "$12,sp,.", "0,x,.",
          "($12,x),.", "#$12,x", "#$12,y", "$12,x,y", "$12,y,x", "($12,x),y", "$12,x,x", "#$12,sp",
          "($12,y)", "($1234,y)", "($12),x", "($1234),y", "($12,sp)", "($12),sp", "($12", "$12)", "(#$12)", "($12),($34)", "$12,xy", "$12,z", "$12,x0", "$12,y1", "$12,X9", "($12,x0)", "($12),y0", "$12,sp0", "$12,xa", "$12,yZ",
          "$12,X", "$12,Y", "$12,SP", "($12,X)", "($12),Y", "#<$1234", "#>$1234", "<$1234", ">$1234", "<$1234,x", "@$12", "$12,#$34",
          "[x+$12]", "[X+$12]", "[y+$12]", "[sp+$12]", "[SP+$1234]", "[x+$1234]", "[y+$1234]", "[x+0]", "[x+3]+4", "[x+$12],$34", "[x+$12],$34,.", "[y+$12],$34", "[sp+$12],.",
          "[Y+$12]", "[Y+$1234]", "[Sp+$12]", "[sP+$1234]", "$12,Sp", "$12,sP", "$1234,X", "$1234,Y"]


def head(cpu, org="$1000"):
    return "\tprocessor\t%s\n\torg\t%s\n" % (cpu, org)


def tail(fwd):
    return "".join("%s\tequ\t%s\n" % (n, e) for n, e in fwd)


VARS = 6


def variant(r, k, n, m, f, serial):
    """One instruction line; k selects how the operand is written; returns (lines, forward definitions)."""
    fwd, pre = [], []

    def value(kind):
        if kind == "b":
            return [0, 0xff, 0x80, 1, 0x7f, r.randrange(256)][k % 6]
        if kind == "i":
            return [0, 0xff, -1, 0x80, -128, r.randrange(256)][k % 6]
        if kind == "w":
            return [0x1234, 0xffff, 0x100, 0x8000, 0x00ff if m not in (M.WORDADRX, M.WORDADRY) else 0x7fff,
                    r.randrange(0x100, 0x10000)][k % 6]
        if kind == "I":
            return [0x1234, 0xffff, 0, 0x80, -1, r.randrange(0x10000)][k % 6]
        if kind == "n":
            return (serial + k) % 8
        if kind == "m":
            return [0, 0xff, 0x55, 0x80, 0x0f, r.randrange(256)][k % 6]
        if kind == "4":
            return [0, 15, 8, 7, 1, r.randrange(16)][k % 6]
        if kind == "3":
            return [0, 7, 4, 3, 1, r.randrange(8)][k % 6]
        if kind == "r":
            return [0, 14, 11, 12, 9, r.randrange(15)][k % 6]
        raise AssertionError(kind)

    def val(kind):
        if kind == "t":
            t = "t%d_%d" % (serial, k)
            how = (serial + k) % 5
            if how == 0:
                return "."
            if how == 1:
                fwd.append((None, t))
                return t
            if how == 2:
                pre.append(t)
                return t
            return [".+%d" % r.randrange(0, 120), ".-%d" % r.randrange(0, 120)][how == 3]
        v = value(kind)
        how = (serial + k) % 4 if kind != "n" else (serial // 8) % 4
        if kind == "w" and v < 0x100 or how == 0:
            return prog.number(r, v)
        if how == 1:
            name = "f%d_%d%s" % (serial, k, kind)
            fwd.append((name, str(v)))
            return name
        if how == 2:
            name = "p%d_%d%s" % (serial, k, kind)
            pre.append((name, str(v)))
            return name
        d = r.randrange(0, 50)
        return "%d+%d" % (v - d, d) if v >= d else str(v)

    op = isa.f8operand(r, n, val) if m == "f8" else isa.operand(m, f, val, k % 2)
    lines = []
    for x in pre:
        lines.append(x if isinstance(x, str) else "%s\tequ\t%s" % x)
    lines.append("\t%s\t%s" % (n, op))
    for nm, e in fwd:
        if nm is None:
            lines.append(e)
    return lines, [(nm, e) for nm, e in fwd if nm]


class Plan:
    def __init__(self, cpus, pack=10):
        self.items = []
        for cpu in cpus:
            t = [(i, e) for i, e in enumerate(isa.table(cpu)) if e[0] not in ("db", "dw", "dd", "res")]
            full = [(i, e, k) for i, e in t for k in range(8 if e[1] in (M.BITMOD, M.BITBRAMOD) else VARS)]
            for a in range(0, len(full), pack):
                self.items.append(("legal", cpu, full[a:a + pack]))
            mine = set(isa.names(cpu))
            for n in sorted(mine):
                for s in SHAPES if cpu != "f8" else []:
                    if cpu == "65c02" and n == "nop":
                        continue
                    self.items.append(("shape", cpu, (n, s)))
            others = sorted({n for c in isa.CPUS for n in isa.names(c)} - mine - set(M.DIRECTIVES))
            if cpu == "hd6303":
                others = [n for n in others if n not in isa.IMPL["hd6303"]]
            for n in others:
                for s in ("", "$12"):
                    self.items.append(("unknown", cpu, (n, s)))

    def case(self, r, i, cpus):
        if i < len(self.items):
            kind, cpu, x = self.items[i]
            # three quarters of the wrong shapes alternate between seeds to keep a run short
            spell = r.choice(isa.SPELL[cpu])
            if kind == "legal":
                body, fwd = [], []
                for serial, (n, m, f), k in x:
                    a, b = variant(r, k, n if r.random() < .8 else n.upper(), m, f, serial) if m != "f8" else \
                        variant(r, k, n, m, f, serial)
                    body += a
                    fwd += b
                text = head(spell) + "\n".join(body) + "\n" + tail(fwd)
            else:
                text = head(spell) + "\tnop\n\t%s\t%s\n\tnop\n" % x
            return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin"], "kind": kind, "cpu": cpu}
        cpu = r.choice(cpus)
        w = dict(prog.DEFAULT, instr=60, branch=8, macro=2, call=3, include=0, incbin=0, echo=0, list=0)
        p = prog.Prog(r, cpu=cpu, size=r.choice([8, 20, 40]), weights=w, errors=r.choice([0, 0, 0, .03]))
        return {"files": p.build(), "args": ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin"], "kind": "random",
                "cpu": cpu}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if p is None or o is None:
        return
    v.count("kind " + case["kind"] + (" ok" if p.code == 0 else " refused"))
    for k in p.stats:
        if k.startswith("m:"):
            v.saw(case["cpu"], k, p.code == 0)
            if p.code == 0:
                v.count("instructions", p.stats[k])
    if p.code and case["kind"] != "random":
        v.saw(case["cpu"], "refused", case["files"]["main.asm"])


NOTE = ("Every instruction in every addressing mode, with boundary operands written in four ways, and every operand "
        "shape on every mnemonic are assembled by the real program and compared byte by byte with a reference "
        "assembler. Its instruction table equals the published opcode maps as written down in tools/published.py.")
