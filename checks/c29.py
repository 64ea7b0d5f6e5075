from gen import prog
from . import common

ID = "C29"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the hex file: independent Intel HEX decoder, checksum by checksum, against the input image"
NOTE = ("Input files of all three formats (hand made: any length, origin, hunk layout, wrap at 64 kB, every truncation; and made by "
        "dasm from random programs) are converted to a file or to standard output; a decoder written from the format's "
        "definition checks every record and compares the list of (address, byte) with the input.")
RULE = "distinct (format, length class, origin class, hunk layout, truncation place, output kind) combinations"
ASSUME = ["addresses in a hex file are 16 bits wide and wrap", "the order of the records is the order of the input"]
NO_MINIMISE = True


def cases(tier):
    return 18000 if tier == "quick" else 100000


def size(r):
    k = r.random()
    if k < .4:
        return r.randrange(0, 70)
    if k < .7:
        return r.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 127, 128, 255, 256, 257, 4095, 4096, 4097])
    if k < .95:
        return r.randrange(0, 2000)
    return r.choice([32767, 32768, 65519, 65520, 65534, 65535])


def origin(r):
    return r.choice([0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfff0, 0xfff1, 0xffff, 0xff00, r.randrange(65536)])


def data(r, n):
    if r.random() < .2:
        return bytes([r.choice([0, 0xff, 0x0a, 0x0d, 0x1a, 0x80])]) * n
    return r.randbytes(n)


def word(n):
    return bytes([n & 255, n >> 8])


def case(r, i, tier):
    out = r.choice(["h.hex", "h.hex", "h.hex", None])
    k = r.random()
    if k < .12:
        p = prog.Prog(r, size=r.choice([5, 20, 60]), errors=0)
        return {"kind": "dasm", "files": p.build(), "fmt": r.choice([1, 2, 3]), "out": out}
    if k < .17:
        return {"kind": "usage", "what": r.choice(["0", "4", "-1", "", "x", "10", "99", "00", "+", "nofile", "outdir"]), "files": {"in": "\x00\x10ab"}, "out": "h.hex"}
    fmt = r.choice([1, 2, 2, 3])
    if fmt == 3:
        hunks = [(0, data(r, size(r) if r.random() < .97 else r.randrange(65536, 140000)))]
        raw = hunks[0][1]
    elif fmt == 1:
        hunks = [(origin(r), data(r, size(r) if r.random() < .97 else r.randrange(65536, 140000)))]
        raw = word(hunks[0][0]) + hunks[0][1]
    else:
        n = r.choice([0, 1, 1, 2, 2, 3, 5, 12])
        hunks = [(origin(r), data(r, size(r) if n < 4 else r.randrange(0, 60))) for _ in range(n)]
        raw = b"".join(word(o) + word(len(d)) + d for o, d in hunks)
    c = {"kind": "made", "fmt": fmt, "out": out, "hunks": [(o, d.decode("latin-1")) for o, d in hunks], "cut": None}
    if fmt == 2 and hunks and r.random() < .45:
        # cut inside a header or inside the data, never exactly between hunks
        ends, at = {0}, 0
        for o, d in hunks:
            at += 4 + len(d)
            ends.add(at)
        k = r.randrange(len(hunks))
        start = sum(4 + len(d) for o, d in hunks[:k])
        n = len(hunks[k][1])
        cut = start + r.choice([1, 2, 3, 4, 5, 3 + n, 2 + n, 4 + r.randrange(n + 1), r.randrange(4 + n)])
        if cut not in ends and cut < len(raw):
            c["cut"] = [cut - start if cut - start < 5 else 4 + n - cut + start < 3 and -1 or 9, min(k, 3)]
            raw = raw[:cut]
    c["files"] = {"in": raw.decode("latin-1")}
    return c


def decode(text):
    """[(address, byte)] of an Intel HEX file, or a string saying what is wrong."""
    res, ended = [], False
    if not text.endswith("\n"):
        return "the last record is not terminated"
    for line in text[:-1].split("\n"):
        line = line[:-1] if line.endswith("\r") else line
        if ended:
            return "something after the end record"
        if not line.startswith(":"):
            return "record does not start with a colon"
        try:
            b = bytes.fromhex(line[1:])
        except ValueError:
            return "not hexadecimal"
        if " " in line or len(b) < 5:
            return "record too short"
        if len(b) != 5 + b[0]:
            return "length field wrong"
        if sum(b) & 255:
            return "checksum wrong"
        at = b[1] << 8 | b[2]
        if b[3] == 1:
            if b[0] or at:
                return "end record wrong"
            ended = True
        elif b[3] == 0:
            res += [((at + k) & 0xffff, x) for k, x in enumerate(b[4:-1])]
        else:
            return "unexpected record type"
    return res if ended else "no end record"


def klass(n):
    return 0 if n == 0 else (n % 16, min(n // 16, 3), n > 255, n > 4095, n > 65535)


def convert(ctx, v, fmt, raw, out):
    c = {"files": {"in": raw}, "args": [str(fmt), "in"] + ([out] if out else [])}
    o = common.basic(c, ctx, v, exe=ctx.ftohex("plain"), outs=[out] if out else [])
    if o is None:
        return None, None
    return o, (o.file(out) if out else o.out)


def judge(case, ctx, v):
    if case["kind"] == "usage":
        w = case["what"]
        a = ["1", "missing", "h.hex"] if w == "nofile" else ["1", "in", "no/dir/h.hex"] if w == "outdir" else [w, "in", "h.hex"]
        o = common.basic({"files": case["files"], "args": a}, ctx, v, exe=ctx.ftohex("plain"), outs=["h.hex"])
        if o is None:
            return
        v.count("refusals expected")
        v.saw("usage", w)
        if o.code == 0:
            v.fail("success for %s" % ("a missing input" if w == "nofile" else "an output that cannot be opened" if w == "outdir" else "an unknown format"), w)
        return
    fmt = case["fmt"]
    if case["kind"] == "dasm":
        p = common.predict(dict(case, args=["main.asm", "-f%d" % fmt]), v)
        o = common.basic(dict(case, args=["main.asm", "-f%d" % fmt, "-oO.bin"]), ctx, v)
        if p is None or o is None or o.code or p.code:
            return
        raw = o.file("O.bin") or b""
        if raw != p.image:
            v.unsure("dasm output differs")
            return
        hunks = []
        if fmt == 3:
            hunks = [(0, raw)]
        elif fmt == 1:
            if len(raw) < 2:
                return
            hunks = [(raw[0] | raw[1] << 8, raw[2:])]
        else:
            at = 0
            while at < len(raw):
                n = raw[at + 2] | raw[at + 3] << 8
                hunks.append((raw[at] | raw[at + 1] << 8, raw[at + 4:at + 4 + n]))
                at += 4 + n
    else:
        raw = case["files"]["in"].encode("latin-1")
        hunks = [(o, d.encode("latin-1")) for o, d in case["hunks"]]
    o, text = convert(ctx, v, fmt, raw, case["out"])
    if o is None:
        return
    if case.get("cut"):
        v.count("truncated files")
        v.saw("cut", case["cut"], bool(case["out"]))
        if o.code != 1:
            v.fail("a truncated hunk file is accepted", "%d bytes, status %d" % (len(raw), o.code))
        return
    if o.code:
        v.fail("a valid file is refused", "status %d: %s" % (o.code, (o.err or b"").decode("latin-1")))
        return
    if text is None or len(text) >= 4 << 20:
        v.unsure("no hex file or too large")
        if text is None:
            v.fail("no hex file")
        return
    got = decode(text.decode("latin-1"))
    if isinstance(got, str):
        v.fail("not valid Intel HEX: " + got, text[:200].decode("latin-1"))
        return
    want = [((a + k) & 0xffff, x) for a, d in hunks for k, x in enumerate(d)]
    v.count("records", text.count(b"\n"))
    v.count("bytes compared", len(want))
    v.count("format %d" % fmt)
    v.saw(fmt, case["kind"], bool(case["out"]), [(klass(len(d)), a & 15, a + len(d) > 0x10000) for a, d in hunks][:2], min(len(hunks), 4))
    if got != want:
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        v.fail("hex file does not decode to the input", "at byte %d: %s instead of %s (%d, %d bytes)"
               % (k, got[k:k + 1], want[k:k + 1], len(got), len(want)))


def need(tier):
    return {"format 1": 1000, "format 2": 1000, "format 3": 1000, "truncated files": 500, "refusals expected": 100}
