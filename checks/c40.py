from gen import prog
from . import common
from .c29 import data, origin, size, word

ID = "C40"
VARIANTS = ["plain"]
TOOLS = ["ftobin"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the raw file: memory image kept by the generator against the converted file; write failures injected"
NOTE = ("Input files of all three formats (hand made: ascending, overlapping and descending hunks, gaps of every length up to the "
        "end of the address space, every truncation; and made by dasm from random programs) are converted to a file or to "
        "standard output, and the result is compared with the bytes laid over each other by the generator.")
RULE = "distinct (format, hunk layout, gap class, end class, truncation place, output kind) combinations"
ASSUME = ["the first origin is the lowest address, as the program demands", "the data of a hunk ends at the end of the 64 kB address space at the latest"]
NO_MINIMISE = True


def cases(tier):
    return 14000 if tier == "quick" else 100000


def layout(r):
    """Hunks that do not begin below the first one and do not pass the end of the address space."""
    n = r.choice([1, 1, 2, 2, 3, 5, 12])
    base = r.choice([0, 1, 0x1000, 0xc000, 0xf000, 0xff00, 0xfff0, origin(r)])
    hunks, top = [], base
    for k in range(n):
        how = r.random()
        if not k:
            at = base
        elif how < .2:
            at = top                                                  # goes on
        elif how < .6:
            at = top + r.choice([1, 2, 15, 100, 254, 255, 256, 257, 511, 512, 513, r.randrange(1, 5000)])
        elif how < .9:
            at = r.randrange(base, top) if top > base else base       # goes back
        else:
            at = r.choice([0xfffa, 0xfffc, 0xfff0, 0xff00])
        if at > 0xffff or at < base:
            at = base
        m = size(r) if n < 4 else r.randrange(1, 300)
        if how > .9 and r.random() < .7:
            m = 0x10000 - at
        m = max(1, min(m, 0x10000 - at, 0xffff))
        hunks.append((at, data(r, m)))
        top = max(top, at + m)
    return hunks


def lay(hunks):
    """The bytes of the hunks over each other, from the first origin on."""
    base = hunks[0][0]
    img = bytearray()
    for at, d in hunks:
        o = at - base
        img += b"\xff" * (o - len(img))
        img[o:o + len(d)] = d
    return bytes(img)


def case(r, i, tier):
    out = r.choice(["r.bin", "r.bin", "r.bin", None])
    k = r.random()
    if k < .12:
        p = prog.Prog(r, size=r.choice([5, 20, 60]), errors=0)
        return {"kind": "dasm", "files": p.build(), "fmt": r.choice([1, 2, 2, 3]), "out": "r.bin"}
    if k < .17:
        return {"kind": "usage", "what": r.choice(["0", "4", "-1", "x", "10", "99", "nofile", "outdir", "noargs"]), "files": {"in": "\x00\x10ab"}, "out": "r.bin"}
    fmt = r.choice([1, 2, 2, 2, 3])
    c = {"kind": "made", "fmt": fmt, "out": out, "cut": None, "full": False, "below": False}
    if fmt == 3:
        hunks = [(0, data(r, max(1, size(r) if r.random() < .97 else r.randrange(65536, 140000))))]
        raw = hunks[0][1]
        c["out"] = "r.bin"
    elif fmt == 1:
        hunks = [(origin(r), data(r, max(1, size(r) if r.random() < .97 else r.randrange(65536, 140000))))]
        raw = word(hunks[0][0]) + hunks[0][1]
    else:
        hunks = layout(r)
        if hunks[0][0] and r.random() < .1:
            at = r.randrange(hunks[0][0])
            hunks.insert(r.randrange(1, len(hunks) + 1), (at, data(r, r.randrange(1, max(2, min(300, 0x10000 - at))))))
            c["below"] = True
        raw = b"".join(word(o) + word(len(d)) + d for o, d in hunks)
        if not c["below"] and r.random() < .25:
            k = r.randrange(len(hunks))
            start = sum(4 + len(d) for o, d in hunks[:k])
            n = len(hunks[k][1])
            cut = start + r.choice([1, 2, 3, 4, 3 + n, 2 + n, 4 + r.randrange(n + 1), r.randrange(4 + n)])
            if start < cut < start + 4 + n:
                c["cut"] = [min(cut - start, 5), min(k, 3)]
                raw = raw[:cut]
    img = b"" if c["cut"] or c["below"] else lay(hunks) if fmt == 2 else hunks[0][1]
    if img and len(img) > 1 and c["out"] and r.random() < .08:
        c["full"] = r.choice([1, len(img) - 1, r.randrange(1, len(img)), max(1, len(img) & ~4095)])
        if c["full"] >= len(img):
            c["full"] = len(img) - 1
    c["hunks"] = [(o, d.decode("latin-1")) for o, d in hunks]
    c["files"] = {"in": raw.decode("latin-1")}
    return c


def judge(case, ctx, v):
    exe = ctx.tool("ftobin")
    if case["kind"] == "usage":
        w = case["what"]
        a = ["1", "missing", "r.bin"] if w == "nofile" else ["1", "in", "no/dir/r.bin"] if w == "outdir" else ["1"] if w == "noargs" else [w, "in", "r.bin"]
        o = common.basic({"files": case["files"], "args": a}, ctx, v, exe=exe, outs=["r.bin"])
        if o is None:
            return
        v.count("refusals expected")
        v.saw("usage", w)
        if o.code == 0:
            v.fail("success for %s" % {"nofile": "a missing input", "outdir": "an output that cannot be opened", "noargs": "no input"}.get(w, "an unknown format"), w)
        return
    fmt = case["fmt"]
    cut = below = full = False
    if case["kind"] == "dasm":
        p = common.predict(dict(case, args=["main.asm", "-f%d" % fmt]), v)
        o = common.basic(dict(case, args=["main.asm", "-f%d" % fmt, "-oO.bin"]), ctx, v)
        if p is None or o is None or o.code or p.code:
            return
        raw = o.file("O.bin") or b""
        if raw != p.image:
            v.unsure("dasm output differs")
            return
        hunks = [(0, raw)]
        if fmt == 1:
            hunks = [(0, raw[2:])]
        if fmt == 2:
            hunks, at = [], 0
            while at < len(raw):
                n = raw[at + 2] | raw[at + 3] << 8
                hunks.append((raw[at] | raw[at + 1] << 8, raw[at + 4:at + 4 + n]))
                at += 4 + n
        if not hunks or any(not d or a < hunks[0][0] or a + len(d) > 0x10000 and fmt == 2 for a, d in hunks) or fmt == 1 and len(raw) < 3:
            return
    else:
        raw = case["files"]["in"].encode("latin-1")
        hunks = [(o, d.encode("latin-1")) for o, d in case["hunks"]]
        cut, below, full = case["cut"], case["below"], case["full"]
    out = case["out"]
    o = common.basic({"files": {"in": raw}, "args": [str(fmt), "in"] + ([out] if out else [])}, ctx, v, exe=exe, outs=[out] if out else [],
                     **({"fsize": full} if full else {}))
    if o is None:
        return
    if cut or below or full:
        what = "a truncated hunk file" if cut else "an address below the first origin" if below else "an output that cannot be written"
        v.count(what)
        v.saw(what, cut, fmt, min(len(hunks), 4), bool(out))
        if o.code == 0:
            v.fail("%s is accepted" % what, "%d bytes, limit %s" % (len(raw), full))
        return
    if o.code:
        v.fail("a valid file is refused", "status %d: %s" % (o.code, ((o.err or b"") + (o.out or b"")[-200:]).decode("latin-1")))
        return
    got = o.file(out) if out else o.out
    want = lay(hunks) if fmt == 2 else hunks[0][1]
    v.count("format %d" % fmt)
    v.count("bytes compared", len(want))
    v.saw(fmt, case["kind"], bool(out), min(len(hunks), 5), len(want).bit_length(), hunks[0][0] + len(want) == 0x10000,
          [(a > b + len(d)) - (a < b + len(d)) for (b, d), (a, _) in zip(hunks, hunks[1:])][:3])
    if got != want:
        got = got or b""
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        v.fail("the raw file is not the image", "at byte %d: %s instead of %s (%d, %d bytes)" % (k, got[k:k + 4].hex(), want[k:k + 4].hex(), len(got), len(want)))


def need(tier):
    return {"format 1": 1000, "format 2": 2000, "format 3": 1000, "a truncated hunk file": 500, "refusals expected": 100,
            "an address below the first origin": 200, "an output that cannot be written": 200}
