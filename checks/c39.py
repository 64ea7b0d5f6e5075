import struct
from . import common
from .c01 import ENV

ID = "C39"
VARIANTS = ["plain", "asan"]
LEVEL = "exploration"
TECHNIQUE = "programs with many or deeply nested parts, expected image, symbols and messages from the generator; address sanitizer on some"
NOTE = ("Each program repeats one kind of part up to tens of thousands of times or nests it up to hundreds deep; the image, "
        "the symbol file, the printed lines and the listing are computed while the source is written, without a model.")
RULE = "distinct (kind of part, size class, options, build) programs whose image was compared"
ASSUME = common.ASSUME[1:]
NO_MINIMISE = True


def cases(tier):
    return 1400 if tier == "quick" else 6000


def size(r, most):
    return min(most, int(2 ** r.uniform(3, 16.5)))


def labels(r, n):
    n = min(n, 80000)
    to = [r.randrange(n) for _ in range(n)]
    nm = r.choice(["l%d", "Label_%d", "%d_x", "a%dz", "L.%d"])
    nm = "q" + nm if nm[0] == "%" else nm
    t = ["%s\tdc.l\t%s" % (nm % k, nm % to[k]) for k in range(n)]
    return t, b"".join(struct.pack("<I", 4 * x) for x in to), {nm % k: 4 * k for k in range(0, n, max(1, n // 50))}, n


def chain(r, n):
    n = min(n, 20000)
    t, v, vals = [], 0, []
    for k in range(n):
        d = r.randrange(3)
        v += d
        vals.append(v)
        t.append("e%d equ %s%d" % (k, "e%d+" % (k - 1) if k else "", d))
    t.append("\tdc.l e%d" % (n - 1))
    return t, struct.pack("<I", v), {"e%d" % k: vals[k] for k in range(0, n, max(1, n // 50))}, n


def macros(r, n):
    n = min(n, 4000)
    t, out = [], bytearray()
    for k in range(n):
        t += ["\tmac m%d" % k, "\tdc.w %d+{1}" % k, "\tendm"]
    order = list(range(n))
    r.shuffle(order)
    for k in order:
        a = r.randrange(100)
        t.append("\tm%d %d" % (k, a))
        out += struct.pack("<H", k + a)
    return t, bytes(out), {}, None


def calls(r, n):
    n = min(n, 15000)
    t, out = ["\tmac mm", ".a\tdc.b {1},{2}", "\tendm"], bytearray()
    for k in range(n):
        x, y = r.randrange(256), r.randrange(256)
        t.append("\tmm %d,%d" % (x, y))
        out += bytes([x, y])
    return t, bytes(out), {}, n


def segments(r, n):
    n = min(n, 600)
    t, mem = [], {}
    pos = {}
    for k in range(n * 3):
        s = r.randrange(n)
        t.append("\tseg%s s%d" % (".u" if s % 3 == 0 and s not in pos else "", s))
        if s not in pos:
            pos[s] = 0x1000 + s * 64
            t.append("\torg $%x" % pos[s])
        if s % 3 == 0:
            t.append("\tds 2")
            pos[s] += 2
        elif pos[s] < 0x1000 + s * 64 + 60:
            b = r.randrange(256)
            t.append("\tdc.b %d" % b)
            mem[pos[s]] = b
            pos[s] += 1
    t += ["\tseg s%d\nend%d" % (s, s) for s in pos]
    return t, mem, {"end%d" % s: pos[s] for s in pos}, len(pos)


def ifs(r, n):
    n = min(n, 4000)
    t, out, live, stack = [], bytearray(), True, []
    bad = r.randrange(2 * n)
    for k in range(n):
        c = k != bad
        t.append("\tif %d" % c)
        stack.append(c)
        live = live and c
        t.append("\tdc.b %d" % (k & 255))
        if live:
            out.append(k & 255)
    while stack:
        c = stack.pop()
        outer = all(stack)
        t.append("\telse")
        t.append("\tdc.b $ee")
        if outer and not c:
            out.append(0xee)
        t.append("\tendif")
    return t, bytes(out), {}, None


def repeats(r, n):
    d = min(n, 300)
    t, count, total = [], 1, 0
    for k in range(d):
        c = r.choice([1, 1, 1, 1, 1, 2]) if count < 500 else 1
        t.append("\trepeat %d" % c)
        count *= c
    t.append("\tdc.b 7")
    t += ["\trepend"] * d
    n = min(n * 3, 200000)
    t += ["i set 0", "\trepeat %d" % n, "\tdc.b i&255", "i set i+1", "\trepend"]
    return t, b"\7" * count + bytes(k & 255 for k in range(n)), {"i": n}, None


def includes(r, n):
    d = min(n, 110)
    files, out = {}, bytearray()
    for k in range(d):
        files["d%d.h" % k] = "\tdc.b %d\n" % k + ('\tinclude "d%d.h"\n' % (k + 1) if k + 1 < d else "") + "\tdc.b $%x\n" % (0x80 | k)
    out += bytes(range(d)) + bytes(0x80 | k for k in reversed(range(d)))
    t = ['\tinclude "d0.h"']
    n = min(n, 3000)
    for k in range(8):
        files["f%d.h" % k] = "\tdc.b $f%d\n" % k
    for _ in range(n):
        k = r.randrange(8)
        t.append('\tinclude "f%d.h"' % k)
        out.append(0xf0 + k)
    return t, bytes(out), {}, None, files


def nested(r, n):
    d = min(n, 30)
    t, out = [], bytearray()
    for k in range(d):
        t += ["\tmac n%d" % k, "\tdc.b {1}+%d" % k] + (["\tn%d {1}" % (k + 1)] if k + 1 < d else []) + ["\tdc.b %d" % k, "\tendm"]
    m = min(max(1, n // 20), 1000)
    for _ in range(m):
        a = r.randrange(200)
        t.append("\tn0 %d" % a)
        out += bytes(a + k for k in range(d)) + bytes(reversed(range(d)))
    return t, bytes(out), {}, None


def data(r, n):
    n = min(n * 8, 600000)
    b = bytes(r.randrange(256) for _ in range(997)) * (n // 997 + 1)
    b = b[:n]
    k = r.choice(["incbin", "ds", "hex", "mix"])
    if k == "incbin":
        return ['\tincbin "big.bin"', "end"], b, {"end": n}, 1, {"big.bin": b}
    if k == "ds":
        return ["\tds %d,$a5" % n, "end"], b"\xa5" * n, {"end": n}, 1
    t = []
    n = min(n, 150000)
    b = b[:n]
    for p in range(0, n, 200):
        t.append("\thex " + b[p:p + 200].hex() if k == "hex" or p % 400 else "\tdc.b " + ",".join(str(x) for x in b[p:p + 200]))
    return t + ["end"], b, {"end": n}, 1


def locals_(r, n):
    t, out = [], bytearray()
    if n > 8000:
        n = min(2 * n, 80000)
        return ["\trepeat %d" % n] + r.choice([["\tsubroutine", "\tdc.b <.y", ".y"], ["lab,.\n\tdc.b <2$", "2$"]]) + ["\trepend"], bytes((k + 1) & 255 for k in range(n)), {}, None
    for k in range(n):
        t += ["\tsubroutine", ".x\tdc.w .y", ".y"] if r.random() < .5 else ["g%d" % k, "1$\tdc.w 2$", "2$"]
        out += struct.pack("<H", 2 * k + 2)
    return t, bytes(out), {}, None


def sets(r, n):
    n = min(n, 30000)
    t, out, v = ["v set 0"], bytearray(), 0
    for k in range(n):
        d = r.randrange(5)
        v += d
        t.append("v set v+%d" % d)
        if k % 7 == 0:
            t.append("\tdc.l v")
            out += struct.pack("<I", v)
    return t + ["\tdc.b 0"], bytes(out) + b"\0", {"v": v}, 1


def texts(r, n):
    n = min(n, 8000)
    t, out = [], bytearray()
    for k in range(n):
        s = "s%dx" % k * r.choice([1, 1, 4])
        t.append('t%d set "%s"' % (k, s))
        t.append("\tdc.b t%d" % k)
        out += s.encode()
    return t, bytes(out), {}, n


def echoes(r, n):
    n = min(n, 4000)
    t, lines = ["\tdc.b 1"], []
    for k in range(n):
        w = "w%d" % k + "abc" * r.choice([0, 1, 20])
        t.append('\techo "%s",%d' % (w, k))
        lines.append(" %s $%x" % (w, k))
    return t, b"\1", {}, None, {}, lines


def errors(r, n):
    n = min(n, 3000)
    t, bad, lines = [], [], []
    texts = r.choice([0, .5, 1])
    for k in range(n):
        if r.random() < .7:
            t.append("\tnosuch%d" % k)
            bad.append(len(t))
        elif r.random() < texts:
            w = "w%d" % k + "abc" * r.choice([0, 1, 40, 150])
            t.append('\techo "%s"' % w)
            lines.append(" " + w)
        else:
            t.append("\tnop")
    end = r.random() < .4
    return t + ["\terr" if end else "\tnosuch"], None, {}, None, {}, {"at": [x + 2 for x in bad + [len(t) + 1]], "lines": lines if end else None}


def dynamic(r, n):
    n = min(n, 6000)
    t = ["i set 0", "\trepeat %d" % n, "dyn_,i\tdc.w i", "i set i+1", "\trepend"]
    out = b"".join(struct.pack("<H", k) for k in range(n))
    j = r.randrange(n)
    return t + ["\tdc.w dyn_%d" % j], out + struct.pack("<H", 2 * j), {"dyn_%d" % k: 2 * k for k in range(0, n, max(1, n // 30))}, n + 1


def args(r, n):
    n = min(n, 250)
    t = ["\tmac many"] + ["\tdc.b {%d}" % (k + 1) for k in range(n)] + ["\tendm"]
    v = [r.randrange(100) for _ in range(n)]
    return t + ["\tmany " + ",".join(map(str, v))], bytes(v), {}, None


def hunks(r, n):
    n = min(n, 4000)
    t, mem, a = [], {}, 0x100
    for k in range(n):
        a += r.choice([0, 1, 3, 10])
        t.append("\torg $%x" % a)
        t.append("\tdc.b %d" % (k & 255))
        mem[a] = k & 255
        a += 1
    return t, mem, {}, None


KINDS = [labels, chain, macros, calls, segments, ifs, repeats, includes, nested, data, locals_, sets, texts, echoes, errors, dynamic, args, hunks]


def case(r, i, tier):
    f = KINDS[i % len(KINDS)]
    n = size(r, 100000)
    x = f(r, n)
    t, image, syms, nsyms = x[:4]
    files = dict(x[4]) if len(x) > 4 else {}
    fmt = 2 if isinstance(image, dict) else 3
    lines = ["\tprocessor 6502"] + ([] if fmt == 2 else ["\torg 0"]) + t
    a = ["-f%d" % fmt, "-oO.bin", "-sO.sym"] + (["-lO.lst"] if r.random() < .3 else []) + (["-T%d" % r.randrange(3)] if r.random() < .5 else [])
    files["main.asm"] = "\n".join(lines) + "\n"
    return {"files": files, "args": ["main.asm"] + a, "kind": f.__name__, "image": [[k, v] for k, v in sorted(image.items())] if fmt == 2 else image.hex() if image is not None else None,
            "syms": syms, "nsyms": nsyms, "extra": x[5] if len(x) > 5 else None, "n": n, "variant": "asan" if r.random() < .15 and n < 3000 else "plain"}


def judge(case, ctx, v):
    asan = case["variant"] == "asan"
    o = common.basic(case, ctx, v, variant=case["variant"], timeout=40, cap=32 << 20, **({"space": None, "env": ENV} if asan else {}))
    if o is None:
        return
    if o.code == 99:
        v.fail("sanitizer report on a large program: %s" % case["kind"], (o.err or b"")[:600].decode("latin-1"))
        return
    out = (o.out or b"").decode("latin-1")
    kind = case["kind"]
    if kind == "errors":
        got = [int(l.split("(")[1].split(")")[0]) for l in out.split("\n") if "error: " in l and l.startswith("main.asm (")]
        v.count("error messages", len(got))
        if o.code == 0:
            v.fail("many errors, none reported by the status")
        elif got != case["extra"]["at"]:
            v.fail("not every error of a long program is reported", "%d instead of %d" % (len(got), len(case["extra"]["at"])))
        elif case["extra"]["lines"] is not None and [l for l in out.split("\n") if l.startswith(" w")] != case["extra"]["lines"]:
            v.fail("not every ECHO of a long program that fails is printed", "instead of %d" % len(case["extra"]["lines"]))
        v.saw(kind, case["n"].bit_length(), len(case["args"]), case["variant"])
        return
    if o.code:
        v.fail("large valid program refused: %s" % kind, "status %s: %s" % (o.code, out[-300:] + (o.err or b"")[-300:].decode("latin-1")))
        return
    img = o.file("O.bin")
    if isinstance(case["image"], list):
        mem, pos = {}, 0
        while pos + 4 <= len(img):
            a, n = struct.unpack_from("<HH", img, pos)
            mem.update(zip(range(a, a + n), img[pos + 4:pos + 4 + n]))
            pos += 4 + n
        good = pos == len(img) and sorted(mem.items()) == [tuple(x) for x in case["image"]]
    else:
        good = img == bytes.fromhex(case["image"])
    if not good:
        w = bytes.fromhex(case["image"]) if isinstance(case["image"], str) else b""
        k = next((k for k in range(min(len(img), len(w))) if img[k] != w[k]), min(len(img), len(w)))
        v.fail("large program gives another image: %s" % kind, "%d bytes, first difference at %d of %d" % (len(img), k, len(w)))
        return
    v.count("images compared")
    v.count("bytes compared", len(img))
    ent = common.symbols(o.file("O.sym") or b"")
    if ent is None:
        v.fail("symbol file of a large program malformed")
        return
    by = {e[0]: e for e in ent}
    if len(by) != len(ent) or case["nsyms"] not in (None, len(ent)):
        v.fail("symbol file of a large program has another number of entries", "%d, %d different, instead of %s" % (len(ent), len(by), case["nsyms"]))
        return
    for n, x in case["syms"].items():
        if n not in by or by[n][1] != x or by[n][2]:
            v.fail("symbol of a large program has another value", "%s instead of %x" % (by.get(n), x))
            return
    v.count("symbols listed", len(ent))
    if kind == "echoes" and out != "".join(l + "\n" for l in case["extra"]) + "\nComplete. (0)\n":
        v.fail("not every ECHO of a long program is printed", "%d lines instead of %d" % (out.count("\n"), len(case["extra"]) + 2))
        return
    if "-lO.lst" in case["args"]:
        lst = o.file("O.lst") or b""
        if lst.count(b"\n") < case["files"]["main.asm"].count("\n"):
            v.fail("listing of a large program is cut short", "%d lines" % lst.count(b"\n"))
            return
        v.count("listing lines", lst.count(b"\n"))
    v.count("parts", case["n"])
    v.saw(kind, case["n"].bit_length(), len(case["args"]), case["variant"])


def need(tier):
    return {"images compared": 1000, "symbols listed": 200000, "error messages": 10000, "bytes compared": 1000000}
