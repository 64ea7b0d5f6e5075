import re
from gen import prog
from model import refasm as M
from . import common

ID = "C31"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the console: parser for the report of every pass, compared with the reference assembler's state"
NOTE = ("Random programs with many segments, included files and forward references are assembled with every verboseness; "
        "the report of each pass is parsed and its segment table, files, symbols and pass statistics are compared with the "
        "state of the reference assembler at the end of that pass, and the final symbol list with the symbol file.")
RULE = "distinct (verboseness, passes, segment kind, known or unknown counters, reported list sizes) compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

W64 = (1 << 64) - 1
NUM = r"([0-9a-f]{4,}) (\?\?\?\?|    )\s+"
ROW = re.compile(r"^(\S.*?)\s+(\[u\])?\s+" + NUM * 3 + r"([0-9a-f]{4,}) (\?\?\?\?|)\s*$")
BACK = re.compile(r'^back to: (.*)$')
INC = re.compile(r'^\s*Including file "(.*)"$')


H = "\tprocessor 6502\n\torg $1000\n"
REASONS = [         # (bit, source, pass in which it is the only reason not seen in the ones before)
    (M.W_MNE, H + "\tlda fw\nfw equ 5\n", 1), (M.W_OBSCURE, "\tprocessor 6502\n\torg fw\nfw equ 5\n", 1), (M.W_DC, H + "\tdc.b fw\nfw equ 5\n", 1),
    (M.W_DV1, H + "\tdv fw 1\nfw eqm ..\n", 1), (M.W_DV2, H + "mm eqm ..+fw\n\tdv mm 1\nfw equ 5\n", 1), (M.W_DS, H + "\tds fw\nfw equ 5\n", 1),
    (M.W_ALIGN, H + "\talign 4,fw\nfw equ 5\n", 1), (M.W_ALIGNR, H + "\trorg fw\n\talign 4\n\trend\nfw equ 5\n", 1),
    (M.W_ALIGNO, "\tprocessor 6502\n\torg fw\n\talign 4\nfw equ 5\n", 1), (M.W_IF, H + "\tif fw\n\tendif\nfw equ 5\n", 1),
    (M.W_REPEAT, H + "\trepeat fw\n\trepend\nfw equ 5\n", 1), (M.W_FWD, H + "\tdc.b <fw\nfw\n", 1),
    (M.W_PHASE, "\tprocessor 6502\n\torg $10\n\tlda fw\nlab\nfw equ 5\n", 2), (M.W_EQUMIS, H + "ee equ 1\nee equ 2\n", 1),
    (M.W_BRANCH, H + "\tbne .+300\n", 1), (M.W_INCLUDE, H + "\tinclude \"none\"\n", 1), (M.W_EQU, H + "ee equ 1\nee equ fw\nfw equ 1\n", 1)]
MORE = ["\talign 4,rs%d\nrs%d\tequ\t3", "\tif rs%d\n\tendif\nrs%d\tequ\t1", "\trepeat rs%d\n\trepend\nrs%d\tequ\t1", "\tds rs%d&3,1\nrs%d\tequ\t2",
        "\tdc.w rs%d\nrs%d", "\tdv rs%d 1,2\nrs%d\teqm\t..+1", "\torg rs%d+$9000\n\talign 8\nrs%d equ 5", "\trorg rs%d\n\talign 2\n\trend\nrs%d equ 4"]
_words = None


def learn(ctx, v):
    """{reason: the line that reports it}, from programs with only that reason; the lines must differ."""
    global _words
    if _words is not None:
        return _words
    words = {}
    for bit, src, n in REASONS:
        c = {"files": {"main.asm": src}, "args": ["main.asm", "-oO.bin", "-v1"]}
        p = common.predict(c, report=True)
        if p is None or p.reports[n - 1]["why"] & ~sum(words) != bit:
            raise AssertionError("reason %x: %s" % (bit, p and p.reports[n - 1]["why"]))
        o = common.basic(c, ctx, v)
        if o is None:
            return None
        text = (o.out or b"").decode("latin-1").split("START OF PASS")
        new = set(reasons(text[n].split("\n"))) - set(words.values()) if n < len(text) else set()
        if len(new) != 1:
            v.fail("a reason for another pass is reported as %d new ones" % len(new), "%r: %s" % (src, sorted(new)))
            return None
        words[bit] = new.pop()
    _words = words
    return words


def reasons(L):
    """The lines below the number of events."""
    k = next((k for k, l in enumerate(L) if re.match(r"^\d+ events? requiring another assembler pass", l)), None)
    res = []
    while k is not None and k + 1 < len(L) and L[k + 1].startswith(" - "):
        k += 1
        res.append(L[k])
    return res


def cases(tier):
    return 18000 if tier == "quick" else 100000


def case(r, i, tier):
    w = dict(prog.DEFAULT, seg=r.choice([2, 12]), rorg=r.choice([2, 8]), include=r.choice([1, 6]), equ=10, org=3, local=6)
    p = prog.Prog(r, size=r.choice([5, 12, 30, 60]), weights=w, fwd=r.choice([0, .2, .5]))
    files = p.build()
    if r.random() < .3:
        # symbols that never get a value, but that nothing depends on
        files["main.asm"] += "".join("nv%d\tequ\tnowhere%d\n" % (k, k % 2) for k in range(r.randrange(1, 4)))
    if r.random() < .3:
        files["main.asm"] += "\tseg.u  bss%d\n\torg $%x\nlast%d\tds %d\n" % (r.randrange(9), r.randrange(0x200), r.randrange(99), r.randrange(1, 20))
    if r.random() < .5:             # other reasons for another pass
        for k in range(r.randrange(1, 4)):
            files["main.asm"] += r.choice(MORE) % (k, k) + "\n"
    if r.random() < .2:             # origins that are others in the next pass
        k = r.randrange(9)
        files["main.asm"] += ("\tseg.u mv{0}\n\torg $10\n\tif mz{0} == 3\n\tdc.b 1,2\n\tendif\n{1}mx{0}\n\tdc.b 1\n{2}\tdc.w mx{0}\nmz{0} equ 3\n".format(
            k, r.choice(["", "\trorg .+$100\n"]), r.choice(["", "\tseg.u mw{0}\n\torg mx{0}+$20\n\tdc.b 1\n", "\trorg mx{0}\n", "\trend\n\trorg mx{0}+5\n"]).format(k)))
    a = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym", "-v%d" % r.choice([1, 2, 3, 4])]
    if r.random() < .3:
        a.append("-T%d" % r.randrange(3))
    if r.random() < .2:
        a.append("-lO.lst")
    r.shuffle(a)
    return {"files": files, "args": ["main.asm"] + a}


def known(m, k):
    return None if m.group(k + 1) == "????" else int(m.group(k), 16)


def judge(case, ctx, v):
    if learn(ctx, v) is None:
        return
    p = common.predict(case, v, report=True)
    if p is None:
        return
    o = common.basic(case, ctx, v)
    if o is None:
        return
    if o.code or p.code:
        if bool(o.code) != bool(p.code):
            v.unsure("another exit status than expected")
        v.count("refused")
        return
    level = next(int(a[2:]) for a in case["args"] if a.startswith("-v"))
    text = (o.out or b"").decode("latin-1").split("\n")
    starts = [k for k, l in enumerate(text) if l.startswith("START OF PASS")]
    if [text[k] for k in starts] != ["START OF PASS: %d" % (k + 1) for k in range(p.passes)]:
        v.fail("passes are not announced one by one", "%s for %d passes" % ([text[k] for k in starts], p.passes))
        return
    for n, (a, b) in enumerate(zip(starts, starts[1:] + [len(text)])):
        onepass(text[a:b], p.reports[n], n + 1 == p.passes, level, o, v)
        if v.kind != "held":
            v.what = v.what + " (pass %d of %d)" % (n + 1, p.passes) if n + 1 < p.passes else v.what
            return
    v.count("reports compared", p.passes)
    v.count("runs with -v%d" % level)


def onepass(L, rep, last, level, o, v):
    heads = [k for k, l in enumerate(L) if l.startswith("SEGMENT NAME")]
    if len(heads) != 1:
        v.fail("a pass has %d segment tables" % len(heads))
        return
    rows, k = [], heads[0] + 1
    while k < len(L) and not L[k].startswith("-----"):
        rows.append(L[k])
        k += 1
    got = []
    for l in rows:
        m = ROW.match(l)
        if not m:
            v.fail("a row of the segment table cannot be read", l)
            return
        got.append((m.group(1), bool(m.group(2))) + tuple(known(m, g) for g in (3, 5, 7, 9)))
    want = [(n, u) + tuple(None if x is None else x & W64 for x in t) for n, u, *t in rep["segs"]]
    if sorted(g[0] for g in got) != sorted(w[0] for w in want):
        v.fail("the segment table names other segments", "%s instead of %s" % ([g[0] for g in got], [w[0] for w in want]))
        return
    want = {w[0]: w for w in want}
    for g in got:
        w = want[g[0]]
        if g != w:
            v.fail("the segment table has another %s" % next(x for x, y, z in zip(
                ["", "kind", "first origin", "first relocated origin", "final origin", "final relocated origin"], g, w) if y != z),
                "%s instead of %s" % (g, w))
            return
        v.saw(level, last, g[1], *[x is None for x in g[2:]])
    v.count("segment rows compared", len(got))
    ev = [l for l in L if re.match(r"^\d+ events? requiring another assembler pass", l)]
    if len(ev) != 1 or (int(ev[0].split()[0]) == 0) != last:
        v.fail("the events requiring another pass are wrong", "%s in %s pass" % (ev, "the last" if last else "an earlier"))
        return
    got, want = sorted(reasons(L)), sorted(w for b, w in _words.items() if b & rep["why"])
    if rep["why"] & ~sum(_words) == 0:
        if got != want:
            v.fail("other reasons for another pass are reported", "%s instead of %s" % (got, want))
            return
        v.count("reasons compared", len(want))
        v.saw("reasons", *want)
    if level >= 2:
        inc = [m.group(1) for m in map(INC.match, L) if m]
        if inc != rep["files"]:
            v.fail("other files are named as included", "%s instead of %s" % (inc, rep["files"]))
            return
        v.count("files named", len(inc))
        back = [m.group(1) for m in map(BACK.match, L) if m]
        if back != (rep["back"] if level == 4 else []):
            v.fail("other files are named as gone on with", "%s instead of %s" % (back, rep["back"]))
            return
        v.count("files gone on with", len(back))
        v.saw("files", level, len(inc), last)
    syms = {n: (value & W64, flags, s) for n, (value, flags, s) in rep["symbols"].items()}
    heads = [k for k, l in enumerate(L) if l.startswith("--- Symbol List")]
    if len(heads) != (1 if level == 4 or level == 3 and last else 0):
        v.fail("symbol list printed %d times with -v%d" % (len(heads), level), "last pass" if last else "earlier pass")
        return
    if heads:
        end = next((k for k, l in enumerate(L) if l.startswith("--- End of Symbol List")), None)
        if end is None:
            v.fail("symbol list without an end")
            return
        raw = ("\n".join(L[heads[0]:end + 1]) + "\n").encode("latin-1")
        if last and raw != o.file("O.sym"):
            v.fail("the symbol list differs from the symbol file")
            return
        ent = common.symbols(raw)
        if ent is None:
            v.fail("the symbol list cannot be read")
            return
        if sorted(e[0] for e in ent) != sorted(syms):
            v.fail("the symbol list names other symbols", str(sorted(set(e[0] for e in ent) ^ set(syms))[:5]))
            return
        for e in ent:
            val, f, s = syms[e[0]]
            if e[2] != bool(f & M.UNKNOWN) or not e[2] and e[1] != val:
                v.fail("the symbol list has another value", "%s instead of %x %s" % (e, val, bool(f & M.UNKNOWN)))
                return
        v.count("symbols compared", len(ent))
        v.saw("symbols", level, last, min(len(ent), 20))
    heads = [k for k, l in enumerate(L) if l.startswith("--- Unresolved Symbol List")]
    want = sorted(n for n, t in syms.items() if t[1] & M.UNKNOWN)
    if level < 3:
        if heads:
            v.fail("unresolved symbols listed with -v%d" % level)
        return
    if len(heads) != bool(want):
        v.fail("unresolved symbols listed %d times" % len(heads), str(want))
        return
    if want:
        end = next((k for k in range(heads[0] + 1, len(L)) if L[k].startswith("---")), None)
        got = sorted(l.split()[0] for l in L[heads[0] + 1:end] if l.split())
        if end is None or got != want:
            v.fail("other symbols are listed as unresolved", "%s instead of %s" % (got, want))
            return
        if L[end].split()[1] != str(len(want)):
            v.fail("wrong number of unresolved symbols", L[end])
            return
        v.count("unresolved symbols compared", len(want))
        v.saw("unresolved", level, last, min(len(want), 9))


def need(tier):
    return {"reports compared": 5000, "segment rows compared": 10000, "files named": 3000, "files gone on with": 300, "symbols compared": 20000,
            "unresolved symbols compared": 2000, "runs with -v1": 500, "reasons compared": 8000, "runs with -v4": 500}
