from gen import prog
from . import common

ID = "C33"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "the same program run with option lists that must be equivalent; monitor on every file of the directory"
NOTE = ("A program is run with a list of options and with an equivalent one (other order, either option character, "
        "overridden earlier values, defaults spelled out); status, console and all files must be equal and the output that of "
        "the reference assembler. Unusable option lists must fail and leave the output and listing as they were.")
RULE = "distinct (set of option letters, kind of change, kind of error) combinations compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

VALUES = {
    "f": ["1", "2", "3"], "o": ["O.bin", "other.bin", "d/o.bin"], "l": ["O.lst", "x.lst"], "s": ["O.sym", "t.sym"],
    "v": ["0", "1", "2", "3", "4"], "T": ["0", "1", "2"], "E": ["0", "1", "2"], "p": ["3", "10", "15", "100", "999"], "m": ["65", "100", "640", "9999", "2000000"],
}
DEFAULTS = ["-f1", "-oa.out", "-v0", "-T0", "-E0", "-m640"]
BAD = ["-f0", "-f4", "-f9", "-f-1", "-f", "-o", "-l", "-L", "-s", "-T3", "-T-1", "-T9", "-E3", "-E-1", "-E9", "-p0", "-P0", "-p-1", "-P-3",
       "-p", "-P", "-m0", "-m64", "-m-1", "-m", "-y", "-x1", "-q", "-", "-?", "-h", "-1", "second.asm", "f3", "o", "--", "-F3", "-O", "-V1", "-t1",
       "-e1", "-r", "-i.", "/y", "/f7", "/o", "=", " ", "", "main.asm"]


def cases(tier):
    return 12000 if tier == "quick" else 60000


def program(r):
    k = r.random()
    if k < .6:
        w = dict(prog.DEFAULT, echo=4)
        files = prog.Prog(r, size=r.choice([5, 15, 30]), weights=w, errors=r.choice([0, 0, .05])).build()
    else:
        files = {"main.asm": "\tprocessor 6502\n\torg $1000\n\tlda later\nb\tdc.b 1,2\na\tequ 7\nlater\tnop\n\techo a\n"}
    t = files["main.asm"]
    t += "\tifconst OPTA\n\tdc.b OPTA\n\tendif\n\tifconst OPTB\n\tdc.b OPTB\n\tendif\n"
    if r.random() < .3:
        files["inc/deep.inc"] = "deepsym\tset 5\n"
        files["alt/deep.inc"] = "deepsym\tset 6\n"
        t += '\tinclude "deep.inc"\n'
        return dict(files, **{"main.asm": t}), True
    return dict(files, **{"main.asm": t}), False


def options(r, inc):
    o = []
    for k in VALUES:
        if r.random() < (.7 if k in "fo" else .3):
            o.append("-" + (r.choice("lL") if k == "l" else r.choice("pP") if k == "p" else k) + r.choice(VALUES[k]))
    for k in "SR":
        if r.random() < .2:
            o.append("-" + k)
    if r.random() < .5:
        o.append(r.choice(["-DOPTA=%d" % r.randrange(200), "-DOPTA", "-DOPTA=3+4", "-MOPTA=%d" % r.randrange(99)]))
    if r.random() < .3:
        o.append("-DOPTB=%d" % r.randrange(200))
    if inc:
        o += ["-Iinc"] if r.random() < .7 else []
    r.shuffle(o)
    return o


def case(r, i, tier):
    files, inc = program(r)
    if r.random() < .3:
        a = options(r, inc)
        bad = r.choice(BAD)
        a.insert(r.randrange(len(a) + 1), bad)
        extra = {"second.asm": "\tprocessor 6502\n\torg 1\n\tnop\n"}
        for n in ("O.bin", "a.out", "O.lst", "O.sym", "d/keep"):
            if r.random() < .3:
                extra[n] = "old"
        args = ["main.asm"] + a
        if r.random() < .05:
            args, bad = [], "none"
        return {"files": dict(files, **extra), "args": args, "kind": "bad", "bad": bad}
    a = options(r, inc)
    b = list(a)
    how = []
    if r.random() < .6:
        # symbols of -D and -M keep their order, directories too
        keep = [x for x in b if x[1] in "DMI"]
        rest = [x for x in b if x[1] not in "DMI"]
        r.shuffle(rest)
        for x in keep:
            rest.insert(r.randrange(len(rest) + 1), None)
        it = iter(keep)
        b = [x if x is not None else next(it) for x in rest]
        how.append("order")
    if r.random() < .4 and b:
        for k in range(len(b)):
            if r.random() < .5:
                b[k] = "/" + b[k][1:]
        how.append("slash")
    if r.random() < .4:
        for x in list(b):
            k = x[1]
            if k in VALUES and r.random() < .5:
                # an earlier value of the same option
                b.insert(r.randrange(b.index(x) + 1), "-" + k + r.choice(VALUES[k] + (["gone.bin", "gone/none.bin"] if k in "osl" else [])))
            elif k == "D" and "=" in x and r.random() < .5:
                b.insert(b.index(x), x.split("=")[0].replace("/", "-") + "=55")
            elif k in "SRI" and r.random() < .5:
                b.insert(r.randrange(len(b) + 1), "-" + x[1:])
        how.append("repeated")
    if r.random() < .4:
        for d in DEFAULTS:
            if all(x[1] != d[1] for x in b) and r.random() < .5:
                b.insert(r.randrange(len(b) + 1), d)
        if all(x[1] not in "pP" for x in b) and r.random() < .3:
            b.append("-p10")
        how.append("default")
    files["d/keep"] = "z"
    return {"files": files, "args": ["main.asm"] + a, "args2": ["main.asm"] + b, "kind": "same", "how": how}


def snapshot(o):
    return {n: o.file(n) for n in o.files["*"] if not n.startswith(".")}


def dash(args):
    return [args[0]] + ["-" + a[1:] for a in args[1:]]


def judge(case, ctx, v):
    outs = ["a.out", "O.bin", "other.bin", "d/o.bin", "O.lst", "x.lst", "O.sym", "t.sym"]
    if case["kind"] == "bad":
        o = common.basic(case, ctx, v, outs=outs, keep_unknown=True)
        if o is None:
            return
        v.saw("bad", case["bad"], o.code)
        v.count("unusable option lists")
        if o.code == 0:
            v.fail("an unusable option list is accepted", case["bad"])
        elif not (o.out or b"").strip():
            v.fail("an unusable option list is refused without a message", case["bad"])
        else:
            for n, t in case["files"].items():
                # -R may remove the output named so far
                if "-R" in case["args"] and n in ["a.out"] + [x[2:] for x in case["args"] if x[:2] == "-o"] or n in ("O.sym", "t.sym"):
                    continue
                if o.file(n) != t.encode("latin-1"):
                    v.fail("a file was changed although the options are unusable", n)
                    return
            new = [n for n in snapshot(o) if n not in case["files"] and n not in ("O.sym", "t.sym")]
            if new:
                v.fail("a file was written although the options are unusable", str(new))
        return
    one = common.basic(case, ctx, v, outs=outs, keep_unknown=True)
    two = common.basic(case, ctx, v, outs=outs, keep_unknown=True, args=case["args2"])
    if one is None or two is None:
        return
    letters = "".join(sorted({a[1] for a in case["args"][1:]}))
    v.saw(letters, tuple(case["how"]), one.code)
    for h in case["how"]:
        v.count("lists with other " + h)
    if one.code != two.code:
        v.fail("equivalent options give another status", "%s: %d, %s: %d" % (case["args"], one.code, case["args2"], two.code))
        return
    if one.out != two.out:
        v.fail("equivalent options print something else", "%s and %s" % (case["args"], case["args2"]))
        return
    a, b = snapshot(one), snapshot(two)
    if a != b:
        k = sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))
        v.fail("equivalent options leave other files", "%s: %s and %s" % (k, case["args"], case["args2"]))
        return
    p = common.predict(case, v, args=dash(case["args2"]))
    if p is None:
        return
    if bool(one.code) != bool(p.code):
        v.fail("exit status %d instead of %d" % (one.code, p.code), str(case["args"]))
        return
    name = common.outname(dash(case["args"]))
    if p.code == 0:
        v.count("outputs compared")
        if a.get(name) != p.image:
            v.fail("the options do not give the documented output", "%s: got %s, expected %s" % (case["args"], common.clip(a.get(name)), common.clip(p.image)))
            return
        made = {name} | {x[2:] for x in case["args"][1:] if x[1] in "lLs"}
        if set(a) - set(case["files"]) != made - set(case["files"]):
            v.fail("other files than asked for", "%s instead of %s" % (sorted(set(a) - set(case["files"])), sorted(made)))


def need(tier):
    return {"unusable option lists": 1000, "lists with other order": 1000, "lists with other slash": 800, "lists with other repeated": 800,
            "lists with other default": 800, "outputs compared": 2000}
