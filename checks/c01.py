import re
from gen import limits, mutate, prog

ID = "C01"
VARIANTS = ["asan", "asanp", "msan"]
LEVEL = "exploration"
TECHNIQUE = "AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer builds of the tree under generated hostile input"
NOTE = ("Sources at the limits of every name, line, string, table and nesting, damaged copies of the test suite's sources, random "
        "programs with errors, option lists and hex input run on an ASan+UBSan build, on one whose pool allocator is split into "
        "single objects, and on an MSan build. Any report, signal or undocumented exit status is a violation.")
RULE = "distinct (build, kind of input, exit status, set of message kinds) observed without a report"
ASSUME = ["the sanitizers report what they are documented to report; reads inside one object's own bounds are not errors",
          "overflow of signed arithmetic and shifts in expressions are the documented wrap-around, not memory errors"]
KINDS = ("limits", "damaged", "program", "ftohex", "bytes")


def cases(tier):
    return 7000 if tier == "quick" else 60000


def case(r, i, tier):
    k = r.random()
    b = r.choice(["asan", "asanp"])
    if k < .08:
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 19, 20, 21, 100, 300, 70000])
        raw = bytearray(r.randbytes(n))
        for j in (2, 3):
            if n > 3 and r.random() < .7:
                raw[j] = r.choice([0, 1, 16, 255])
        a = [r.choice(["1", "2", "2", "2", "3", "0", "4", "", "x"]), r.choice(["in", "in", "in", "in", "missing"])]
        if r.random() < .7:
            a.append("h.hex")
        return {"kind": "ftohex", "files": {"in": bytes(raw).decode("latin-1")}, "args": a[:r.choice([3, 3, 3, 3, 1, 0])], "build": b}
    if k < .55:
        kind, files = "limits", limits.program(r)
    elif k < .82:
        kind, files = "damaged", mutate.program(r)
    elif k < .96:
        kind = "program"
        files = prog.Prog(r, size=r.choice([10, 30, 60]), errors=.1, fwd=.3).build()
        if r.random() < .5:
            files["main.asm"] = mutate.damage(r, files["main.asm"])
    else:
        kind, files = "bytes", {"main.asm": r.randbytes(r.choice([0, 1, 10, 100, 1024, 5000])).decode("latin-1")}
    a = limits.options(r)
    if r.random() < .8:
        a.append("-oO.bin")
    return {"kind": kind, "files": files, "args": ["main.asm"] + a, "build": b}


OPT = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:strict_string_checks=0:detect_stack_use_after_return=1"
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": OPT, "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:report_error_type=1",
       "MSAN_OPTIONS": "exitcode=99"}
REPORT = re.compile(rb"(?:SUMMARY|ERROR|WARNING): *(\w*Sanitizer)[: ]+([^\n]*)")
UB = re.compile(rb"runtime error: ([^\n]*)")
FRAME = re.compile(rb"#\d+ 0x[0-9a-f]+ in (\w+) \S*/build-\w+/(\w+\.c)")
MSG = re.compile(rb"error: ([A-Za-z' -]+)|(Complete|Aborting|Unresolved|Unable to [a-z]+|too many|Fatal assembly error)")


def judge(case, ctx, v):
    hexer = case["kind"] == "ftohex"
    for b in (case["build"], "msan"):
        o = ctx.run(case, b, v, exe=ctx.ftohex(b) if hexer else None, outs=[], env=ENV, space=None, timeout=20)
        if o.timeout:
            v.count("time limit")
            continue
        err = o.err or b""
        if o.code == 99 or b"Sanitizer" in err or b"runtime error:" in err:
            m = UB.search(err) or REPORT.search(err)
            f = FRAME.search(err)
            what = b" ".join(m.groups()).decode("latin-1") if m else "report"
            what = re.sub(r"0x[0-9a-f]+|\S*/build-\S+|\d+", "N", what)[:90]
            v.fail("%s: %s in %s" % (b[:4], what, f.group(1).decode() if f else "?"), err.decode("latin-1")[:2500])
            return
        if o.signal:
            v.fail("killed by signal %d" % o.signal, (o.out or b"")[-300:].decode("latin-1"))
            return
        if o.code > (1 if hexer else 43):
            v.fail("undocumented exit status %d" % o.code, (o.out or b"")[-300:].decode("latin-1"))
            return
        v.count("%s %s" % (b, case["kind"]))
        v.count("status %d" % o.code)
        v.saw(b, case["kind"], o.code, sorted({(a or c) for a, c in MSG.findall((o.out or b"")[:20000])}))


def need(tier):
    return {"%s %s" % (b, k): 10 for b in ("asan", "asanp", "msan") for k in KINDS}
