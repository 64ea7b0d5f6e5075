from gen import isa, prog
from . import common

ID = "C16"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "output re-derived by a second assembly with all symbols known beforehand, plus reference model"
NOTE = ("Programs full of forward references (operand sizes, origins, counts, conditions and chains that depend on later "
        "symbols) are compared with the reference assembler, then assembled again with every dumped symbol defined on "
        "the command line: the bytes must be the same. Undefined symbols at every kind of use must fail.")
RULE = "distinct (pass count, kinds of forward use, outcome) and language features compared after convergence"
ASSUME = common.ASSUME
NO_MINIMISE = True
USES = ["\tdc.b @", "\tdc.w @", "\tdc.l @+1", "\tlda @", "\tlda #@", "\tlda #<@", "\tds @&7", "\talign @&7+1", "\torg .+[@&15]",
        "\tif @\n\tdc 1\n\tendif", "\trepeat @&3\n\tdc 2\n\trepend", "q equ @\n\tdc.w q", "q eqm @+1\n\tdc.w q", "q set @\n\tdc.w q",
        "\tbne @", "\tjmp @", "\tmac um\n\tdc.w {1}\n\tendm\n\tum @", "\techo @", "q,@\n", "\tdc.b <@,>@", "\tdv.w dvm @", "dvf eqm ..+@\n\tdv.w dvf 1,2", "dvf eqm ..+@\n\tdv.l dvf 7,\"ab\"", "\tdv.w dvm 1,@,2",
        "\trorg @&$ff0\nq\n\tdc.w q,.\n\trend", "\tincbin \"bin\",@&3", "\tds 3,@", "\torg .+5,@&255\n\tdc 1", "\tadc @,x", "\tlda (@),y",
        "\tjmp (@)", "\tif @ > 5\n\tlda #1\n\telse\n\tlda #2\n\tnop\n\tendif", "\tif 0\n\tdc @\n\tendif", "\tifconst @\n\tdc 1\n\tendif",
        "\tseg.u uu\n\torg @&255\nq\n\tds 1\n\tseg code\n\tdc.w q", "\tsta @+0", "\tldx @,y", "\terr", "\tdc.b \"a\",@,2"]


def cases(tier):
    return 11200 if tier == "quick" else 100000


def case(r, i, tier):
    k = r.random()
    args = ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin", "-sO.sym"]
    head = "\tprocessor 6502\n\tseg code\n\torg $1000\n\tdc.b $ea\ndvm eqm ..\n"
    if i < len(USES) * 3 or k < .15:
        u = USES[i // 3] if i < len(USES) * 3 else r.choice(USES)
        mode = i % 3 if i < len(USES) * 3 else r.randrange(3)
        n = r.choice(["zed", "Lab_1", "n.m"])
        defs = ["", "%s equ %d\n" % (n, r.choice([0, 1, 5, 200, 255, 256, 0x1008])), "%s\n" % n][mode]
        body = u.replace("@", n)
        return {"files": {"main.asm": head + body + "\n\tdc.b 7\n" + defs, "bin": "abcdef"}, "args": args,
                "kind": "use", "keys": [u, mode], "undef": mode == 0}
    if k < .2:
        # a second definition with another value fails, with the same value it does not
        x = r.choice([0, 1, 255, 256, 0x8000, 65535, 65536, 1 << 31, 1 << 32, (1 << 63) - 1, r.randrange(1 << 32)])
        d = r.choice([0, 0, 1, r.randrange(1 << 16)] + [1 << b for b in range(0, 63)])
        y = x ^ d
        num = lambda n: prog.number(r, n) if n < 1 << 40 else "$%x" % n
        how = r.choice(["equ", "=", "label", "mixed", "forward"])
        if how == "label":
            x, y = x & 0x7ffff, y & 0x7ffff
            text = "\tseg.u uu\n\torg %s\nrd%s\n\torg %s\nrd%s\n\tds 1\n" % (num(x), r.choice(["", ":", "\tds 0"]), num(y), r.choice(["", ":"]))
        elif how == "mixed":
            x, y = x & 0x7ffff, y & 0x7ffff
            text = "\tseg.u uu\n\torg %s\nrd\n\tds 1\nrd equ %s\n" % (num(x), num(y))
        elif how == "forward":
            text = "\tdc.b <rd\nrd equ f1\nrd equ f2\nf1 equ %s\nf2 equ %s\n" % (num(x), num(y))
        else:
            text = "rd %s %s\n\tdc.b <rd\nrd %s %s\n" % (how, num(x), how, num(y))
        return {"files": {"main.asm": head + text}, "args": args, "kind": "redefine", "keys": [how, x == y, (x ^ y).bit_length()],
                "same": x == y}
    if k < .4:
        # chains: each symbol depends on the next one
        n = r.choice([1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 15])
        lines = []
        for j in range(n):
            e = "c%d+1" % (j + 1)
            lines.append(r.choice(["c%d equ %s", "c%d = %s"]) % (j, e))
        lines.append("c%d equ %d" % (n, r.choice([0, 250, 255, 1000])))
        if r.random() < .3:
            r.shuffle(lines)
        use = [r.choice(["\tlda c0", "\tdc.w c0", "\tds c0&7", "\tlda c%d" % r.randrange(n + 1), "\tsta c0,x"]) for _ in range(3)]
        p = r.choice([None, None, None, 1, 2, 3, 5, 11, 12, 13, 20, 40])
        if p:
            args.append("-%s%d" % (r.choice("pP"), p))
        return {"files": {"main.asm": head + "\n".join(use + lines) + "\nend\n\tdc.w end\n"}, "args": args, "kind": "chain",
                "keys": [n, p]}
    if k < .6:
        # sizes that depend on the layout they produce
        org = r.choice(["$e0", "$f0", "$f8", "$fc", "0", "$80"])
        lines, labs = [], ["z%d" % j for j in range(r.randrange(2, 12))]
        for n in labs:
            lines.append(n + "\t" + r.choice(["lda", "sta", "inc", "ldx", "ora", "adc", "asl"]) + "\t" + r.choice(labs) +
                         r.choice(["", "", "+1", "-1", "+$10"]))
            if r.random() < .2:
                lines.append("\tds %s" % r.choice(["1", "5", "[%s-%s]&7" % (labs[-1], labs[0]), "20"]))
            if r.random() < .1:
                lines.append("\talign %d" % r.choice([2, 4, 8]))
        cpu = r.choice(["6502", "65c02", "68705", "6803"])
        if cpu in ("68705", "6803"):
            lines = [s.replace("ldx", "ldx").replace("ora", "sub").replace("lda", "sub").replace("sta", "cmp").replace("adc", "sub")
                     .replace("cmp", "sub") for s in lines]
            if cpu == "6803":
                lines = [s.replace("\tsub\t", "\tsuba\t").replace("\tasl\t", "\tsuba\t").replace("\tinc\t", "\tsuba\t") for s in lines]
        text = "\tprocessor %s\n\torg %s\n" % (cpu, org) + "\n".join(lines) + "\n\tdc.w " + ",".join(labs) + "\n"
        return {"files": {"main.asm": text}, "args": args, "kind": "layout", "keys": [cpu, org, len(labs)]}
    w = dict(prog.DEFAULT, set=0, eqm=0, setstr=0, setsym=0, dv=0, list=0)
    p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w, fwd=r.choice([.3, .5, .7]))
    return {"files": p.build(), "args": args, "kind": "random", "keys": [], "pin": True}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    if case["kind"] == "redefine" and (o.code == 0) != case["same"]:
        v.fail("a second definition with %s value is %s" % (("the same", "refused") if case["same"] else ("another", "accepted")))
        return
    v.count("kind " + case["kind"] + (" ok" if o.code == 0 else " refused"))
    v.saw(case["kind"], *case["keys"], p.passes, p.code)
    if case["kind"] == "random":
        common.stats_seen(v, p)
    if o.code:
        return
    got = common.check_symbols(o, p, v, values_only=True)
    if got is None:
        return
    text = "".join(t for n, t in case["files"].items() if n.endswith((".asm", ".h"))).lower()
    if "ifconst" in text or "ifnconst" in text or " set " in text or "eqm" in text.replace("dvm eqm ..\n", ""):
        return
    pins = ["-D%s=%d" % (g[0], g[1] if g[1] < 1 << 63 else g[1] - (1 << 64)) for g in got
            if not g[2] and not g[3] and not g[4] and (g[0][0].isalpha() or g[0][0] == "_") and "$" not in g[0]]
    if not pins or len(pins) > 200:
        return
    q = common.basic(case, ctx, v, args=case["args"] + pins)
    if q is None:
        return
    if q.code and len(pins) < len(got):
        # local labels cannot be given; a layout that depends on itself need not settle again without them
        again = common.predict(case, None, case["args"] + pins)
        if again is None or again.code:
            v.count("not settled without its local labels")
            return
    if q.code:
        v.fail("assembly with known symbols refused", (q.out or b"").decode("latin-1")[-300:])
    elif q.file("O.bin") != o.file("O.bin"):
        a, b = o.file("O.bin"), q.file("O.bin") or b""
        k = common.diffpos(a, b)
        v.fail("image does not follow from the symbol values", "at %d: %s, with known symbols %s" % (
            k, a[k:k + 8].hex(), b[k:k + 8].hex()))
    v.count("assembled again")


def need(tier):
    return {"assembled again": 2500, "kind use refused": 100, "kind redefine refused": 100, "kind redefine ok": 20, "kind chain ok": 400, "kind layout ok": 400, "kind random ok": 1500}
