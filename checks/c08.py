from gen import isa, prog
from model import refasm as M
from . import common

ID = "C08"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor of operand sizes and of the addresses that depend on them"
NOTE = ("Product of instruction, index, suffix, boundary value and way of knowing the value (literal, earlier, later, "
        "label, expression), several instructions per program with labels between them; bytes and every label value "
        "are compared with a reference assembler.")
RULE = "distinct (processor, instruction, chosen mode, suffix, value class, way of knowing it) that were compared"
ASSUME = common.ASSUME

SUF = ["", "", "", ".b", ".w", ".z", ".d", ".a", ".e", ".bx", ".wx", ".by", ".wy", ".zx", ".zy", ".ax", ".ay", ".ex",
       ".i", ".0", ".0x", ".ix", ".0y", ".iy", ".in", ".r", ".l", ".s", ".B", ".W", ".WX", ".bi", ".bb", ".zi", ".db", ".Bi"]
VALS = [0, 0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x17f, 0x1ff, 0x7fff, 0x8000, 0xffff, -1, -128]
SHAPES = ["%s", "%s", "%s,x", "%s,y", "(%s,x)", "(%s),y", "(%s)", "#%s", "%s,sp", "%s,X", "%s,Y"]


def cases(tier):
    return 18000 if tier == "quick" else 120000


def one(r, cpu, pre, post, k):
    """An instruction and a description of it."""
    n, m, f = r.choice(isa.table(cpu))
    while m == "f8" or f or m in (M.REL, M.IMP, M.BYTEREL):
        n, m, f = r.choice(isa.table(cpu))
    val = r.choice(VALS) if r.random() < .8 else r.randrange(0x10000)
    how = r.choice(["lit", "lit", "pre", "post", "expr", "postexpr", "mix"])
    name = "s%d" % k
    if how == "lit":
        t = prog.number(r, val)
    elif how == "pre":
        pre.append("%s equ %d" % (name, val))
        t = name
    elif how == "post":
        post.append("%s equ %d" % (name, val))
        t = name
    elif how == "expr":
        d = r.randrange(300)
        t = "%d-%d" % (val + d, d)
    elif how == "postexpr":
        post.append("%s equ %d" % (name, val - 5))
        t = "%s+5" % name
    else:
        pre.append("%sa equ %d" % (name, val & 0xff))
        post.append("%sb equ %d" % (name, val & ~0xff))
        t = "%sa+%sb" % (name, name)
    shape = r.choice(SHAPES) if r.random() < .25 else isa.operand(m, 0, lambda k: "%s")
    suf = r.choice(SUF)
    if m in (M.BITMOD, M.BITBRAMOD):
        shape = "%d,%%s" % r.randrange(8) + (",." if m == M.BITBRAMOD else "")
        suf = r.choice(["", "", ".bi", ".bb", ".b", ".zi", ".db", ".w"])
    if m == M.ZX and "%s" not in shape:
        t = ""
        shape = "0,x"
    cls = "zero" if val == 0 else "neg" if val < 0 else "byte" if val < 256 else "word"
    return "\t%s%s\t%s" % (n, suf, shape % t if "%s" in shape else shape), (cpu, n, suf, cls, how)


def case(r, i, tier):
    cpu = r.choice([c for c in isa.CPUS if c != "f8"])
    pre, post, body, keys = [], [], [], []
    for k in range(r.choice([1, 1, 3, 6])):
        for _ in range(12):
            a, b = [], []
            line, key = one(r, cpu, a, b, k)
            probe = "\tprocessor %s\n\torg $1000\n%s\n%s\n%s\n" % (cpu, "\n".join(a), line, "\n".join(b))
            try:
                ok = M.assemble({"main.asm": probe}).code == 0
            except M.Unsupported:
                continue
            if ok or r.random() < .04:
                break
        else:
            continue
        pre += a
        post += b
        body.append("lb%d%s" % (k, line))
        keys.append(key)
        if r.random() < .3:
            body.append("\tdc.w\tlb%d,.,q%d" % (k, k))
            post.append("q%d equ %s" % (k, r.choice(["5", "$345", "lb%d+1" % k])))
    org = r.choice(["$1000", "0", "$80", "$f0", "$fc", "$fff0"])
    if r.random() < .25 and body:
        body.insert(0, "\tbcc2 equ 1"[1:])
    zpl = r.random() < .4
    text = "\tprocessor %s\n\torg %s\n" % (r.choice(isa.SPELL[cpu]), org) + "\n".join(pre + body) + "\n"
    if zpl:        # labels of the program itself as operands: their size depends on the layout
        op = r.choice(["lda", "sta", "inc", "ldaa", "staa"])
        if op in isa.names(cpu):
            text += "tail0\t%s\ttail1\ntail1\t%s\ttail0\n\tdc.w tail0,tail1,end0\n" % (op, op)
    text += "\n".join(post) + "\nend0\n\tdc.w end0\n"
    return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"], "keys": keys, "cpu": cpu}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if p is None or o is None or v.kind != "held":
        return
    if p.code == 0:
        common.check_symbols(o, p, v, values_only=True)
        for k in case["keys"]:
            v.saw(*k)
        for k in p.stats:
            if k.startswith("m:"):
                v.saw(case["cpu"], k)
        v.count("instructions", len(case["keys"]))
        v.count("forced", p.stats.get("forced", 0))
    else:
        v.count("refused")
        for k in case["keys"]:
            v.saw("refused", *k)


def need(tier):
    return {"instructions": 8000, "forced": 1500, "refused": 200, "symbols compared": 10000}
