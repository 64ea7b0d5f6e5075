import re
from gen import limits, mutate, prog
from . import common

ID = "C02"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "pass counter on the run's announcements, wall clock, address space and output size limits around every run"
NOTE = ("Programs that need many passes, oscillate, never resolve, recurse through macros, text symbols and includes or grow "
        "without end run with -p, -P and -m around the decisive value, and hostile sources as in C01; the announced passes may not exceed the limit and "
        "the run must end within a time, memory and file size limit, with the status the limit calls for.")
RULE = "distinct (kind, limit relative to the need, passes made, exit status) combinations"
ASSUME = ["a run that uses 10 s, and 40 s when tried again, or 768 MB, for these small inputs is one that does not end"] + common.ASSUME
NO_MINIMISE = True
HEAD = "\tprocessor 6502\n\torg $1000\n"


def cases(tier):
    return 12600 if tier == "quick" else 80000


def chain(r):
    """Definitions in the wrong order: one pass for each."""
    n = r.randrange(1, 24)
    t = HEAD
    if r.random() < .5:
        t += "\tlda s0\n"
    t += "\tdc.b s0\n" if r.random() < .7 else ""
    for k in range(n):
        t += "s%d equ s%d+1\n" % (k, k + 1)
        if r.random() < .1:
            t += "\tnop\n"
    t += "s%d equ %d\n" % (n, r.randrange(200)) + "\tdc.b s0\n"
    return t, n


def shrink(r):
    """Every pass moves labels across the zero page border."""
    n = r.randrange(2, 20)
    t = "\tprocessor 6502\n\torg $%x\n" % (256 - 3 * n + r.randrange(0, 2 * n))
    for k in range(n):
        t += "\tlda l%d\n" % r.randrange(n)
    for k in range(n):
        t += "l%d\n" % k + "\tnop\n" * r.randrange(2)
    return t, 2


def oscillate(r):
    k = r.randrange(5)
    if k == 0:
        return HEAD + "q equ .\n\tif o==0\n\tdc.b 1,2\n\tendif\no equ .-q\n", None
    if k == 1:
        return HEAD + "\tds %d-z\nz equ .-$1000\n" % r.choice([3, 5, 7]), None
    if k == 2:
        return HEAD + "\tifconst zz\n\tdc.b 1\n\tendif\n\tlda zz\n\tifnconst yy\nzz equ 5\n\tendif\nyy equ 4\n", None
    if k == 3:
        return HEAD + "a equ b+1\nb equ a+1\n\tdc.b a\n", None
    return HEAD + "x1\tds 1\n\tif later&1\n\tdc.b 1\n\telse\n\tdc.b 1,2\n\tendif\nlater\tdc.b 1\n", None


def grow(r):
    k = r.randrange(5)
    if k == 0:
        return HEAD + "\tds later\nlater equ .-$1000+1\n", None
    if k == 1:
        return HEAD + "\trepeat later\n\tnop\n\trepend\nlater equ .-$1000+1\n", None
    if k == 2:
        return HEAD + "\torg later+1\n\tnop\nlater\n", None
    if k == 3:
        return HEAD + "a set a+1\n\tdc.b a\n\tdc.b u\nu equ a\n", None
    return HEAD + "c set 0\n\trepeat 3\nc set c+1\n\tdc.b l\n\trepend\nl equ c+l2\nl2 equ l3\nl3 equ .\n", None


def passes(r):
    t, n = r.choice([chain, chain, chain, shrink, oscillate, oscillate, grow])(r)
    a = []
    k = r.random()
    base = n + 2 if n else r.choice([2, 5, 12])
    lim = max(1, base + r.choice([-3, -2, -1, 0, 0, 1, 2, 5, 20])) if k < .8 else None
    if lim:
        a.append("-%s%d" % (r.choice("pP"), lim))
    return {"files": {"main.asm": t}, "args": ["main.asm", "-v1", "-f%d" % r.choice([1, 3]), "-oO.bin"] + a, "kind": "passes", "limit": lim or 10}


def recurse(r):
    k = r.randrange(8)
    d = r.choice([1, 2, 5, 20, 29, 30, 31, 32, 33, 34, 35, 60, 200])
    want = None
    files = {}
    if k == 0:        # macro calling itself for ever
        t, want = HEAD + "\tmac m\n%s\tm\n\tendm\n\tm\n" % ("\tnop\n" * r.randrange(3)), "fail"
    elif k == 1:      # two macros calling each other
        t, want = HEAD + "\tmac m1\n\tm2\n\tendm\n\tmac m2\n\tm1\n\tendm\n\tm%d\n" % r.choice([1, 2]), "fail"
    elif k == 2:      # macro calling itself d times
        t = HEAD + "\tmac m\n\tdc.b {1}\n\tif {1}\n\tm {1}-1\n\tendif\n\tendm\n\tm %d\n" % (d - 1)
        want = "ok" if d <= 31 else "fail" if d > 33 else None
    elif k == 3:      # text symbol that refers to itself
        t, want = HEAD + r.choice(["a eqm a+1\n\tdc.b a\n", "a eqm b\nb eqm a\n\tdc.b a\n", "a eqm [a]\n\tdc.w a\n", "a eqm 1+b*2\nb eqm a|a\n\tlda #a\n"]), "fail"
    elif k == 4:      # a chain of text symbols
        n = r.choice([1, 5, 50, 400, 900])
        t = HEAD + "".join("e%d eqm e%d\n" % (j, j + 1) for j in range(n)) + "e%d equ 7\n\tdc.b e0\n" % n
        want = "ok"
    elif k == 5:      # file that includes itself
        t, want = HEAD + "\tnop\n" + "\tinclude \"main.asm\"\n" * r.choice([1, 1, 2, 5]), "fail"
    elif k == 6:
        t, want = HEAD + "\tinclude \"b.asm\"\n", "fail"
        files["b.asm"] = "\tnop\n" + "\tinclude \"main.asm\"\n" * r.choice([1, 2, 3])
    else:             # a chain of includes
        n = r.choice([1, 3, 20, 60, 100])
        t = HEAD + "\tinclude \"f0.asm\"\n"
        for j in range(n):
            files["f%d.asm" % j] = "\tdc.b %d\n" % (j & 255) + ("\tinclude \"f%d.asm\"\n" % (j + 1) if j < n - 1 else "")
        want = "ok"
    files["main.asm"] = t
    return {"files": files, "args": ["main.asm", "-v1", "-f3", "-oO.bin"], "kind": "recurse", "limit": 10, "want": want, "shape": (k, d if k == 2 else 0)}


def big(r):
    m = r.choice([65, 66, 100, 640, 700, 2000])
    top = m * 1024
    k = r.randrange(7)
    off = r.choice([-300, -2, -1, 0, 1, 2, 300, 5000, 100000, 10000000, 1 << 31, 1 << 40])
    t = "\tprocessor 6502\n\torg 0\n\tdc.b 1\n"
    if k == 0:
        t += "\tds %d\n" % (top - 1 + off)
    elif k == 1:
        t += "\torg %d\n\tdc.b 1\n" % (top - 1 + off)
    elif k == 2:
        t += "\trepeat %d\n\tds 1024\n\trepend\n" % (m + r.choice([-2, -1, 0, 1, 1000000]))
    elif k == 3:
        t += "\tmac g\n\tds 30000\n\tg\n\tendm\n\tg\n"
    elif k == 4:
        t += "\talign %d\n\tdc.b 1\n" % (top + off)
    elif k == 5:
        t += "\trepeat 100000000\n\trepeat 100000\n\tds 100\n\trepend\n\trepend\n"
    else:
        t += "\torg 10\n\tincbin \"b.bin\"\n\torg %d\n\tincbin \"b.bin\"\n" % (top + r.choice([-200000, -150, -100, -99, 0, 50]))
    a = ["main.asm", "-v1", "-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if m != 640 or r.random() < .5:
        a.append("-m%d" % m)
    return {"files": {"main.asm": t, "b.bin": "B" * 100}, "args": a, "kind": "big", "limit": 10, "top": top, "shape": (k, m, off)}


def case(r, i, tier):
    k = r.random()
    if k < .55:
        return passes(r)
    if k < .7:
        return recurse(r)
    if k < .83:
        return big(r)
    if k < .92:
        a = [o for o in limits.options(r) if o[:2] not in ("-p", "-P", "-v", "-o", "-l", "-L", "-m") and o != "-d"]
        return {"files": limits.program(r) if r.random() < .6 else mutate.program(r), "args": ["main.asm", "-v1", "-oO.bin"] + a, "kind": "hostile", "limit": 10}
    p = prog.Prog(r, size=r.choice([10, 30]), fwd=.6, errors=r.choice([0, .05]))
    lim = r.choice([1, 2, 3, 4, 10])
    return {"files": p.build(), "args": ["main.asm", "-v1", "-f3", "-oO.bin", "-%s%d" % (r.choice("pP"), lim)], "kind": "random", "limit": lim}


PASS = re.compile(rb"^START OF PASS: (\d+)$", re.M)


def judge(case, ctx, v):
    o = common.basic(case, ctx, v, space=768 << 20)
    if o is None:
        return
    kind = case["kind"]
    ps = [int(x) for x in PASS.findall(o.out or b"")]
    if ps != list(range(1, len(ps) + 1)):
        if len(o.out or b"") < 4 << 20:
            v.fail("the passes are not numbered in order", str(ps))
        return
    v.count("passes seen", len(ps))
    if len(ps) > case["limit"]:
        v.fail("more passes than allowed", "%d passes, limit %d" % (len(ps), case["limit"]))
        return
    img = o.file("O.bin")
    if kind == "big" and img is not None and len(img) > case["top"] + (1 << 17):
        v.fail("output grows beyond the limit", "%d bytes, limit %d" % (len(img), case["top"]))
        return
    if kind == "hostile":
        v.count("hostile inputs that ended")
        v.saw(kind, len(ps), o.code)
        return
    if case.get("want"):
        v.count("recursions")
        v.saw("recurse", case["shape"], o.code)
        if (o.code == 0) != (case["want"] == "ok"):
            v.fail("%s, status %d" % ("bounded recursion refused" if o.code else "endless recursion accepted", o.code), (o.out or b"")[-200:].decode("latin-1"))
            return
        if case["want"] == "fail":
            return
    p = common.predict(case, v)
    if p is None:
        return
    if p.code != o.code:
        if {3, 4} & {p.code, o.code} or (p.code == 0) != (o.code == 0):
            v.fail("exit status %d instead of %d" % (o.code, p.code), "passes %d, model %d; %s" % (len(ps), p.passes, (o.out or b"")[-300:].decode("latin-1")))
        return
    v.count(kind + " compared")
    if kind == "passes":
        v.count("status %d" % o.code)
    v.saw(kind, case.get("shape"), p.passes, case["limit"] - p.passes, o.code)
    if len(ps) == p.passes - (o.code == 4):     # the model has begun the pass that is one too many
        v.count("pass counts equal to the model's")


def need(tier):
    return {"passes compared": 2500, "status 0": 800, "status 3": 100, "status 4": 300, "recursions": 500, "big compared": 400, "hostile inputs that ended": 500}
