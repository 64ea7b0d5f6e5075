from gen import isa, prog
from . import common

ID = "C26"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "metamorphic monitor: output file and exit status of the same source under many option sets; model for -S"
NOTE = ("Each random program, with and without errors, is assembled plainly and then with random sets of -l -L -s -v -T -E "
        "-R -p -P and with LIST directives put in; the output file and the exit status must not change (-p and -P: for "
        "programs that assemble). -S may only turn success into failure.")
RULE = "distinct (set of options, outcome, format) pairs of runs compared"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 7000 if tier == "quick" else 50000


def optset(r, ok):
    pool = [["-lO.lst"], ["-LO.lst"], ["-sO.sym"], ["-v%d" % r.randrange(0, 5)], ["-T%d" % r.randrange(3), "-sO.sym"], ["-T%d" % r.randrange(3)], ["-E%d" % r.randrange(3)], ["-R"]]
    if ok:
        pool += [["-p%d" % r.choice([11, 20, 100])], ["-P%d" % r.choice([11, 20, 100])]]
    k = r.choice([1, 1, 2, 3, 8])
    got = []
    for o in r.sample(pool, min(k, len(pool))):
        for x in o:
            if not any(x[:2].lower() == g[:2].lower() for g in got) or x[:2] in ("-s", "-T") and x not in got and not any(x[:2] == g[:2] for g in got):
                got.append(x)
    r.shuffle(got)
    return got


def lists(r, text):
    out, skip = [], 0
    for l in text.split("\n"):
        low = l.lower()
        if "/*" in l:
            skip = 1
        out.append(l)
        if not skip and r.random() < .15 and l and out[-1]:
            out.append("\tlist " + r.choice(["on", "off", "ON", "OFF", "localon", "localoff", "LOCALON", "LOCALOFF"]))
        if "*/" in l:
            skip = 0
    return "\n".join(out)


def case(r, i, tier):
    ok = r.random() < .7
    p = prog.Prog(r, size=r.choice([5, 15, 40]), errors=0 if ok else .15, fwd=r.choice([.1, .4]), weights=dict(prog.DEFAULT, echo=4, include=3))
    files = p.build()
    fmt = r.choice([1, 2, 3])
    sets = [optset(r, True) for _ in range(4)]
    twin = None
    if r.random() < .5:
        twin = dict(files, **{n: lists(r, files[n]) for n in files if n.endswith((".asm", ".h"))})
    return {"files": files, "args": ["main.asm", "-f%d" % fmt, "-oO.bin"], "sets": sets, "twin": twin}


def judge(case, ctx, v):
    o = common.basic(case, ctx, v)
    if o is None:
        return
    fmt = case["args"][1]
    for s in case["sets"] + [["-S"]]:
        if o.code and any(x[:2] in ("-p", "-P") for x in s):
            s = [x for x in s if x[:2] not in ("-p", "-P")]
        args = case["args"] + s
        if len(s) % 2:
            args = ["main.asm"] + s + case["args"][1:]
        q = common.basic(case, ctx, v, args=args)
        if q is None:
            return
        name = "".join(sorted(x[:2] for x in s))
        v.saw(name, " ".join(sorted(s)) if len(s) < 3 else len(s), o.code, fmt)
        v.count("compared %s" % ("success" if o.code == 0 else "failure"))
        if s == ["-S"]:
            if o.code and not q.code:
                v.fail("-S turns a failure into success", "status %d without" % o.code)
            elif not q.code and q.file("O.bin") != o.file("O.bin"):
                v.fail("-S changes the output")
            v.count("-S %s" % ("same" if q.code == o.code else "stricter"))
            p = common.predict(case, v, args)
            if v.kind == "held" and p is not None and (p.code == 0) != (q.code == 0):
                v.fail("-S %s" % ("accepts what it should refuse" if p.code else "refuses a program without fault"), "status %d instead of %d" % (q.code, p.code))
        elif q.code != o.code:
            v.fail("options change the exit status", "%s: %d instead of %d" % (" ".join(s), q.code, o.code))
        elif not o.code and q.file("O.bin") != o.file("O.bin"):
            v.fail("options change the output file", " ".join(s))
        if v.kind != "held":
            return
    if case["twin"]:
        q = common.basic(dict(case, files=case["twin"]), ctx, v)
        if q is None:
            return
        v.count("with LIST directives")
        if q.code != o.code:
            v.fail("LIST directives change the exit status", "%d instead of %d" % (q.code, o.code))
        elif not o.code and q.file("O.bin") != o.file("O.bin"):
            v.fail("LIST directives change the output file")
        else:
            q = common.basic(dict(case, files=case["twin"]), ctx, v, args=case["args"] + ["-lO.lst"])
            if q is not None and (q.code != o.code or not o.code and q.file("O.bin") != o.file("O.bin")):
                v.fail("LIST directives with -l change the output")


def need(tier):
    return {"compared success": 5000, "compared failure": 800, "-S same": 1000, "-S stricter": 20, "with LIST directives": 800}
