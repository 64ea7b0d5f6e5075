from gen import limits, mutate, prog
from . import common

ID = "C03"
VARIANTS = ["plain", "pattern", "zero"]
LEVEL = "exploration"
TECHNIQUE = "differential monitoring: the same input in several states of heap, stack, environment and directory, on builds with poisoned and with zeroed variables"
NOTE = ("Every input runs on a normal build, again with poisoned heap memory, a large environment, another directory and junk "
        "in the place of the output files, and on builds that fill every local variable with a pattern and with zero; exit status, "
        "console, output, listing and symbol file must be byte-identical. MSan runs of C01 look at the same behaviour from the other side.")
RULE = "distinct (kind of input, exit status, passes, which files were written) compared in all states"
ASSUME = ["an influence of memory contents shows when the contents are changed; -d, which prints addresses on purpose, is not used"]


def cases(tier):
    return 9000 if tier == "quick" else 50000


def case(r, i, tier):
    k = r.random()
    if k < .4:
        kind, files = "program", prog.Prog(r, size=r.choice([10, 30, 60]), errors=r.choice([0, 0, .1]), fwd=r.choice([.1, .4])).build()
    elif k < .7:
        kind, files = "limits", limits.program(r)
    else:
        kind, files = "damaged", mutate.program(r)
    a = [o for o in limits.options(r) if o != "-d" and o[:2] not in ("-o", "-l", "-L", "-s")]
    a = ["main.asm", "-oO.bin", r.choice(["-lO.lst", "-LO.lst", "-lO.lst"]), "-sO.sym"] + a
    return {"kind": kind, "files": files, "args": a, "byte": r.choice([1, 0x41, 0x80, 0xa5, 0xff]), "junk": r.choice([0, 10, 5000])}


BASE = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}


def states(case):
    yield "plain", dict(BASE), {}, "c"
    e = dict(BASE, MALLOC_PERTURB_=str(case["byte"]), HOME="/nowhere", DASM="x", TMPDIR="/nowhere", LANG="de_DE.UTF-8", TZ="Asia/Tokyo", LC_ALL="C.UTF-8")
    for k in range(case["byte"] % 5):
        e["FILL%d" % k] = "\x07" * 3000
    yield "plain", e, {n: "junk of an earlier run\n" * case["junk"] for n in ("O.bin", "O.lst", "O.sym")} if case["junk"] else {}, "some-other-directory-%d" % case["byte"]
    yield "pattern", dict(BASE, MALLOC_PERTURB_=str(255 - case["byte"])), {}, "c"
    yield "zero", dict(BASE, MALLOC_PERTURB_="0"), {}, "d"


def judge(case, ctx, v):
    first = None
    for n, (variant, env, junk, name) in enumerate(states(case)):
        c = dict(case, files=dict(junk, **case["files"]))
        o = common.basic(c, ctx, v, variant, env=env, name=name, outs=["O.bin", "O.lst", "O.sym"], timeout=20)
        if o is None:
            if v.kind == "violated" and not v.what.startswith("killed"):
                v.kind, v.what, v.detail = "held", None, None
                v.count("time limit")
            elif v.kind == "inconclusive":
                v.kind, v.what = "held", None
                v.count("time limit")
            return
        if first is None:
            first = o
            v.saw(case["kind"], o.code, [bool(o.file(f)) for f in ("O.bin", "O.lst", "O.sym")], (o.out or b"").count(b"error"))
            continue
        tag = ["", "a second run", "the build with filled variables", "the build with zeroed variables"][n]
        if o.code != first.code:
            v.fail("exit status differs in " + tag, "%s instead of %s: %s" % (o.code, first.code, (o.out or b"")[-300:].decode("latin-1")))
            return
        for what, a, b in [("console output", first.out, o.out), ("messages", first.err, o.err)] + [(f, first.file(f), o.file(f)) for f in ("O.bin", "O.lst", "O.sym")]:
            if junk and a is None and b is not None and b.startswith(b"junk of an earlier"):
                continue      # never opened
            if a != b:
                k = common.diffpos(a or b"", b or b"")
                v.fail("%s differs in %s" % (what, tag), "at %d: %r instead of %r" % (k, (b or b"")[max(0, k - 20):k + 40], (a or b"")[max(0, k - 20):k + 40]))
                return
        v.count("comparisons")
    v.count("status %d" % first.code)
    v.count(case["kind"])


def need(tier):
    return {"comparisons": 9000, "status 0": 500, "limits": 500, "damaged": 500, "program": 500}
