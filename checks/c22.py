from gen import isa, prog
from . import common

ID = "C22"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the symbol dump: parser, order relation per -T, direct expectation of generated definitions; model"
NOTE = ("Symbol files of generated programs are parsed in full: each entry once, value, flags and text as the reference "
        "assembler and the generator's own list of definitions give them, and neighbours in the order -T asks for "
        "(equal keys in any order).")
RULE = "distinct (kind of symbol, flags, size of value, name shape, sort mode, size of table) entries compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

TITLE = {0: "(sorted by symbol)", 1: "(sorted by address)", 2: "(sorted by order)"}


def cases(tier):
    return 14400 if tier == "quick" else 120000


def args(r, mode):
    a = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym"]
    if mode or r.random() < .5:
        a.append("-T%d" % mode)
    r.shuffle(a)
    return ["main.asm"] + a


def name(r, used):
    while True:
        k = r.random()
        if k < .3:
            n = r.choice("abcABC_zZ") + "".join(r.choice("abAB_09.") for _ in range(r.randrange(1, 8)))
        elif k < .5:
            n = r.choice(["Alpha", "alphb", "ALPHC", "beta", "Beta_", "zeta", "_top"]) + str(r.randrange(300))
        elif k < .6:
            n = "n" * r.choice([22, 23, 24, 25, 26, 40, 62, 63, 64, 65, 100, 200]) + str(r.randrange(100))
        else:
            n = "s%d" % r.randrange(100000)
        if n not in used and n.lower() not in ("a", "ab", "ba", "b"):
            used.add(n)
            return n


def case(r, i, tier):
    mode = r.randrange(3)
    if r.random() < .35:
        w = dict(prog.DEFAULT, label=20, equ=12, set=8, local=6, dollar=6, eqm=6, setstr=6, setsym=4, dyn=4)
        p = prog.Prog(r, size=r.choice([8, 20, 60]), weights=w, fwd=r.choice([.1, .5]))
        return {"files": p.build(), "args": args(r, mode), "kind": "random", "mode": mode}
    used, lines, post, defs, refs = set(), [], [], [], []
    pc = r.choice([0, 0x10, 0x1000, 0xf000, 0x12345])
    cpu = r.choice(["6502", "68hc11", "6803", "68705"])
    lines.append("\torg $%x" % pc)
    for _ in range(r.choice([1, 4, 12, 40, 40, 150])):
        n = name(r, used)
        k = r.random()
        if r.random() < .15 and not 25 < len(n):
            # looked at before it is defined, which must not count as its definition
            lines.append("\tif%sconst %s\n\tendif" % (r.choice(["", "n"]), n))
        if k < .4:
            defs.append([n, pc, "label"])
            lines.append(n + r.choice(["", ":", " dc.b 1", "\tdc.w 1"]))
            pc += 2 if "dc.w" in lines[-1] else 1 if "dc.b" in lines[-1] else 0
        elif k < .65:
            v = r.choice([0, 1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
                          0x100000000, 0x7fffffffffffffff, -1, -2, -0x80000000, -0x100000000, r.randrange(1 << 16)])
            defs.append([n, v, "equ"])
            lines.append("%s\tequ\t%d" % (n, v))
        elif k < .75:
            v = r.randrange(1 << 12)
            defs.append([n, v, "set"])
            if r.random() < .4:
                lines.append("%s\tset\t%d" % (n, v + 1))
            lines.append("%s\tset\t%d" % (n, v))
        elif k < .85:
            t = r.choice(["", "hello", "with space", "a,b", "x" * 100, "Mixed", "---"])
            defs.append([n, t, "str"])
            lines.append('%s\tset\t"%s"' % (n, t) if t and (" " in t or "," in t) or not t else "%s\tsetstr\t%s" % (n, t))
        elif k < .92:
            defs.append([n, None, "eqm"])
            lines.append("%s\teqm\t%d+1" % (n, r.randrange(50)))
        else:
            refs.append(n)
            lines.append("\tifconst %s\n\tdc.b 1\n\tendif" % n)
        if defs and r.random() < .3:
            d = r.choice(defs)
            if d[2] in ("label", "equ"):
                lines.append("\tdc.l %s" % d[0])
                pc += 4
                d.append("R")
    if r.random() < .3:
        n = name(r, used)
        lines.append("\tdc.b %s" % n)
        post.append("%s\tequ\t7" % n)
        defs.append([n, 7, "equ"])
    return {"files": {"main.asm": "\tprocessor %s\n" % cpu + "\n".join(lines + post) + "\n"}, "args": args(r, mode),
            "kind": "defs", "defs": defs, "refs": refs, "mode": mode}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v, image=False)
    if o is None or v.kind != "held":
        return
    if o.code:
        v.count("refused")
        return
    got = common.check_symbols(o, p, v)
    if got is None:
        return
    raw = o.file("O.sym").decode("latin-1")
    mode = case["mode"]
    if TITLE[mode] not in raw.split("\n", 1)[0]:
        v.fail("dump does not name the order asked for", raw[:80])
        return
    for g in got:
        v.saw(g[2:7], len("%x" % g[1]), len(g[0]), g[0][0].isdigit(), mode, min(len(got), 5))
    sg = [g[1] - (1 << 64) if g[1] >> 63 else g[1] for g in got]
    for k in range(1, len(got)):
        a, b = got[k - 1], got[k]
        if mode == 0:
            bad = a[0].lower() > b[0].lower()
        elif mode == 1:
            bad = sg[k - 1] > sg[k]
        else:
            bad = p.symbols[a[0]].order > p.symbols[b[0]].order
        if bad:
            v.fail("entries in the wrong order for -T%d" % mode, "%s before %s" % (a[:2], b[:2]))
            return
    v.count("neighbours in order -T%d" % mode, len(got))
    if case["kind"] != "defs" or "defs" not in case:
        return
    by = {g[0]: g for g in got}
    for n in case["refs"]:
        if n not in by:
            v.fail("referenced symbol missing from the dump", n)
            return
    for d in case["defs"]:
        n, val, kind = d[:3]
        g = by.get(n)
        v.count("defined as " + kind)
        if g is None:
            v.fail("symbol missing from the dump", n)
        elif kind in ("label", "equ", "set") and (g[1] != val & 0xffffffffffffffff or g[2]):
            v.fail("wrong value in the dump", "%s instead of %s" % (g, val))
        elif kind == "str" and (not g[3] or g[7] != val):
            v.fail("wrong text in the dump", "%s instead of %s" % (g, val))
        elif kind == "eqm" and not g[4]:
            v.fail("EQM symbol not marked", str(g))
        elif len(d) > 3 and not g[5]:
            v.fail("referenced symbol not marked", str(g))
        if v.kind != "held":
            return
    if mode == 2:
        place = {d[0]: k for k, d in enumerate(case["defs"])}
        seq = [g[0] for g in got if g[0] in place]
        if seq != sorted(seq, key=place.get):
            v.fail("symbols not in order of definition", str(seq[:10]))


def need(tier):
    return {"neighbours in order -T0": 10000, "neighbours in order -T1": 10000, "neighbours in order -T2": 10000,
            "defined as label": 10000, "defined as str": 2000, "defined as eqm": 1000}
