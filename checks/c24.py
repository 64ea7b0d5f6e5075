import itertools, re
from gen import isa, prog
from . import common

ID = "C24"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "exit status and console monitored over programs with planted errors in live and dead places; model for the class"
NOTE = ("One bad statement of every error class is put where it is assembled (must fail with its class and a message) or "
        "where it is not (skipped branch, uncalled macro, zero REPEAT, after END: must succeed); random programs with and "
        "without errors must end with exactly the status the reference assembler derives.")
RULE = "distinct (bad statement, place, processor) and (error class, way of ending) outcomes compared"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 24000 if tier == "quick" else 150000


# statement -> accepted statuses (None: any failure); $L stands for a fresh name
BAD = [("\tdc.b 256", [5]), ("\tdc.b -256", [5]), ("\tdc.b 1/0", [9]), ("\tfoobar 12", [5]), ("\tdc undefd$L", [3]), ("\tdc.b 1+", [5]),
       ("\tdc 1 2", [5]), ("\terr", [17]), ("$L equ 1\n$L equ 2", [3]), ("\tprocessor 6510", [27]), ("\tprocessor F8", [30]), ("\tdc [1", None),
       ("\talign 0", [9]), ("\tdc ~", [5]), ("\thex 1g", [5]), ("\tdc ,1", [5]), ("$L\n\tdc.b 1\n$L", [3]),
       ("\tds -1", [18]), ("\tdc.b 1\n\torg .-1\n\tdc.b 1", [18]), ("\tincbin \"nofile\"", [2]), ("\tinclude \"nofile\"", None), ("\tdc.w `", [5]), ("\tbadmn", [5]),
       ("\tif nosuch$L\n\tendif", [3]), ("\trepeat nosuch$L\n\trepend", [3]), ("\tds nosuch$L", [3]), ("\talign nosuch$L", [3]), ("\tdc.b nosuch$L", [3]), ("$L equ nosuch$L\n\tdc $L", [3]),
       ("\tmac $L\n\tdc {1}\n\tendm\n\t$L", None), ("\tmac $L\n\t$L\n\tendm\n\t$L", None), ("$L eqm $L+1\n\tdc $L", None),
       ("\tdc 1]", None), ("\tdc 2 3 4", [5]), ("\tdc 5 +", [5]), ("*/", [5]),
       ("\tdv.b lab0 1", [5]), ("\tincbin 5", None), ("\torg .+1,nosuch$L", [26]), ("\tincbin \"inc.bin\",nosuch$L", [26]),
       ("\tdc.b \"abc", [5]), ("\tmac $L\n\tdc {2}\n\tendm\n\t$L 1", None), ("\tdc " + "[" * 80 + "1" + "]" * 80, [7]), ("\tdc.w 1/[lab0-lab0]", [9]),
       ("\tdc.b " + "1+" * 40 + "[1", None), ("\tdc (", None), ("\tdc \"a\"+", [5]), ("$L eqm 1+\n\tdc $L", [5])]
BAD6502 = [("\tlda", None), ("\tlda #1,x", None), ("\tlda #256", [5]), ("\tlda #-256", [5]), ("\tbne .+200", [3, 5, 16]), ("\tsta #5", None), ("\tjmp ($12,x)", None),
           ("\tlda.b $1234", [5]), ("\tldx $10,x", None), ("\tsty $1234,x", None), ("\tjsr", None), ("\tinc", None),
           ("\tjmp.b 5", None), ("\tlda.w (5,x)", None), ("\tlda (256),y", [5]), ("\tlda (-256,x)", [5])]
BADCPU = {
    "68705": [("\tbset 8,$10", [5]), ("\tbclr -1,$10", [5]), ("\tbset 1,$100", [5]), ("\tbrset 9,$10,.", [5]), ("\tbrset 1,$100,.", [5]),
              ("\tbrset 1,$10", [23]), ("\tbrclr 1,$10,.+300", [3, 5]), ("\tlda #256", [5]), ("\tbra .+200", [3, 5])],
    "68hc908": [("\tbset 8,$10", [5]), ("\tbclr 300,$10", [5]), ("\tbset 1,$100", [5]), ("\tbrclr 8,$10,.", [5]), ("\tbrset 1,$100,.", [5]),
                ("\tcbeq $10", [23]), ("\tbra .-200", [3, 5]), ("\tcbeq $10,.+400", [3, 5]), ("\tlda #256", [5])],
    "68hc11": [("\tldaa #256", [5]), ("\tbra .+300", [3, 5]), ("\tbset $100,$1", [5]), ("\tldaa 256,x", None), ("\tbrset $10,$1", None)],
    "6803": [("\tldaa #256", [5]), ("\tbra .+300", [3, 5]), ("\tldaa 256,x", None)],
    "f8": [("\tli 256", [5]), ("\tlis 16", [5]), ("\tins 16", [5]), ("\touts 16", [5]), ("\tsl 2", [5]), ("\tsr 0", [5]), ("\tlisu 8", [5]), ("\tlisl 8", [5]), ("\tbt 8,.", [5]),
           ("\tbf 16,.", [5]), ("\tbr .+300", None), ("\tpi $10000", [5]), ("\tdci -1", None), ("\tlr q,w", [37]), ("\tlr a,j,k", None), ("\tas 15", [33, 35]), ("\tds 15", [33, 35]),
           ("\tni 256", [5]), ("\tlr 15,a", [33, 35]), ("\tout 256", [5])],
}
DEADOK = ("\tdc.b 256", "\tdc.b 1/0", "\tfoobar 12", "\tdc undefd$L", "\tdc.b 1+", "\terr", "\tdc ~", "\tlda #256", "\tincbin \"nofile\"", "\tinclude \"nofile\"", "\tdc [1", "\thex 1g",
          "\talign 0", "\tprocessor 6510", "\tds -1", "\tbadmn", "\tlda", "\tsta #5", "\tbne .+200", "\tjsr", "\tdc nosuch$L", "\tlda.b $1234")
PLACES = ["live", "macro", "repeat", "include", "if", "else", "ifconst", "nested", "first", "last", "label"]
DEAD = ["if0", "else0", "ifnconst0", "uncalled", "repeat0", "end", "comment", "block", "nested0"]


def wrap(place, b, lab):
    two = b.strip("\n")
    if place in ("live", "first", "last"):
        return two
    if place == "label":
        return two if not two.startswith("\t") else lab + "q" + two
    if place == "macro":
        return "\tmac %sm\n%s\n\tendm\n\t%sm" % (lab, two, lab)
    if place == "repeat":
        return "\trepeat 1\n%s\n\trepend" % two
    if place == "if":
        return "\tif 1\n%s\n\tendif" % two
    if place == "else":
        return "\tif 0\n\tdc.b 9\n\telse\n%s\n\tendif" % two
    if place == "ifconst":
        return "%sk equ 5\n\tifconst %sk\n%s\n\tendif" % (lab, lab, two)
    if place == "nested":
        return "\tif 1\n\tif 0\n\telse\n\trepeat 1\n%s\n\trepend\n\tendif\n\tendif" % two
    if place == "if0":
        return "\tif 0\n%s\n\tendif" % two
    if place == "else0":
        return "\tif 1\n\telse\n%s\n\tendif" % two
    if place == "ifnconst0":
        return "%sk equ 5\n\tifnconst %sk\n%s\n\tendif" % (lab, lab, two)
    if place == "nested0":
        return "\tif 0\n\tif 1\n%s\n\telse\n%s\n\tendif\n\tendif" % (two, two)
    if place == "uncalled":
        return "\tmac %sm\n%s\n\tendm" % (lab, two)
    if place == "repeat0":
        return "\trepeat 0\n%s\n\trepend" % two
    if place == "comment":
        return "\n".join("\tdc.b 1 ;" + l for l in two.split("\n"))
    if place == "block":
        return "/*\n%s\n*/" % two
    return two


def case(r, i, tier):
    opts = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if r.random() < .2:
        opts.append(r.choice(["-lO.lst", "-LO.lst"]))
    if r.random() < .2:
        opts.append("-E%d" % r.randrange(3))
    k0 = r.random()
    if k0 < .35:
        p = prog.Prog(r, size=r.choice([5, 15, 40]), errors=r.choice([0, .1, .1]), fwd=r.choice([.1, .3]))
        if r.random() < .1:
            opts.append("-S")
        return {"files": p.build(), "args": ["main.asm"] + opts, "kind": "random", "bad": (p.injected or "")[:30], "place": ""}
    cpu = r.choice(["6502", "6502", "65c02", "6803", "68hc11", "68705", "68hc908", "f8"])
    dead = r.random() < .35
    pool = BAD + (BAD6502 if cpu in ("6502",) else [])
    if not dead and r.random() < .5:
        pool = BADCPU.get(cpu, pool)
    if dead:
        pool = [b for b in pool if b[0] in DEADOK]
        place = r.choice(DEAD)
    else:
        place = r.choice(PLACES)
    bad, codes = r.choice(pool)
    if cpu == "f8" and ("\tds " in bad and "15" not in bad or "F8" in bad):
        bad, codes = "\tdc.b 256", [5]
    if "\torg" in bad and "-f2" in opts:
        bad, codes = "\terr", [17]
    if bad == "\thex 1g":
        h = ["%02X" % r.randrange(256) for _ in range(r.choice([1, 1, 2, 5]))]
        h[r.randrange(len(h))] = "".join(r.sample([r.choice("0aF9"), r.choice("ghizGHOZ@`:/!+-#$%*.,<>?_|~^&()[]")], 2))
        bad = "\thex " + r.choice(["", " "]).join(h)
    b = bad.replace("$L", "zq9")
    if place in ("macro", "uncalled") and ("\tmac" in b) or place in ("repeat", "nested") and "equ" in b and "\nzq9 equ" not in b:
        place = "live"
    files = {"inc.bin": "abc"}
    serial = itertools.count(r.randrange(10 ** 6))
    good = lambda n: [r.choice(["\tdc.b %d" % r.randrange(256), "gl%d" % next(serial), "\tdc.w lab0", "ge%d equ %d" % (next(serial), r.randrange(999)),
                                "; comment", "", "\tif 1\n\tdc.b 2\n\tendif", "\techo \"x\""]) for _ in range(n)]
    head = ["\tprocessor %s" % cpu, "\torg $1000", "lab0"]
    pre, post = good(r.randrange(5)), good(r.randrange(5))
    if r.random() < .4:
        pre.append("\tdc.b fw0")
        post.append("fw0 equ 3")
    w = wrap(place, b, "zq8")
    if place == "include":
        files["part.asm"] = w + "\n"
        w = "\tinclude \"part.asm\""
    if place == "first":
        pre = []
    if place == "last":
        post = [p for p in post if p == "fw0 equ 3"]
        pre, post = pre + post, []
    if place == "end":
        lines = head + pre + post + ["\tend", w]
    else:
        lines = head + pre + [w] + post
    files["main.asm"] = "\n".join(lines) + "\n"
    return {"files": files, "args": ["main.asm"] + opts, "kind": "dead" if dead else "live", "bad": bad, "place": place, "codes": codes, "cpu": cpu}


def judge(case, ctx, v):
    if case["kind"] == "random":
        o, p = common.agree(case, ctx, v, exact=True)
        if o is None or v.kind != "held":
            return
        v.saw("random", p.code, p.abort, case["bad"])
        for e in p.errors[:10]:
            v.saw("error", e[2], p.code)
        v.count("random %s" % ("success" if p.code == 0 else "failure"))
    else:
        o = common.basic(case, ctx, v)
        if o is None:
            return
        v.saw(case["bad"], case["place"], case["cpu"])
        v.count("%s errors" % case["kind"])
        if case["kind"] == "dead" and o.code:
            v.fail("bad statement in a place that is not assembled makes the assembly fail", "%s in %s: status %d" % (case["bad"], case["place"], o.code))
            return
        if case["kind"] == "live":
            if o.code == 0:
                v.fail("assembly with an error reported as success", "%s in %s" % (case["bad"], case["place"]))
                return
            p = common.predict(case)
            if case["codes"] is not None and o.code not in case["codes"] or p is not None and p.code != o.code:
                v.fail("status of another error class", "%s in %s: status %d, expected %s" % (case["bad"], case["place"], o.code, case["codes"] or p.code))
                return
    text = (o.out or b"") + (o.err or b"") + (o.file("O.lst") or b"")
    said = [l for l in text.decode("latin-1").split("\n") if re.search(r"[A-Za-z]", l) and not l.startswith("Complete.")]
    if o.code and not said:
        v.fail("failure without any message", "status %d" % o.code)
    elif o.code:
        v.count("failures with a message")


def need(tier):
    return {"live errors": 3000, "dead errors": 1500, "random success": 1500, "random failure": 500, "failures with a message": 3000}
