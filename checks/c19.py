import os
import re
from gen import isa, prog
from . import common

ID = "C19"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "twin programs: included and pasted text give the same bytes and symbols; file lookup computed independently"
NOTE = ("Random programs are cut into nested include files (with any line end and a missing final newline) and must give "
        "the bytes and symbols of the uncut program; INCBIN is compared with the file contents for all lengths and "
        "offsets; the same name in several directories shows which file was taken.")
RULE = "distinct (nesting, cut, line ends) twins, (length, offset) INCBINs and (directories, winner) lookups compared"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 14000 if tier == "quick" else 100000


def cuts(lines):
    """Line indexes at which no block is open."""
    res, depth, comment = [], 0, False
    for k, s in enumerate(lines):
        if depth == 0 and not comment:
            res.append(k)
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*") and "*/" not in s:
            comment = True
            continue
        w = s.split(";")[0].split()
        if s[:1] not in (" ", "\t") and w:
            w = w[1:]
        m = w[0].lower().lstrip(".#") if w else ""
        if m in ("mac", "macro", "if", "ifconst", "ifnconst", "repeat"):
            depth += 1
        elif m in ("endm", "endif", "eif", "repend"):
            depth -= 1
    return res + ([len(lines)] if depth == 0 else [])


def splitup(r, lines, files, level=0):
    out = lines
    for _ in range(r.randrange(1, 4)):
        c = cuts(out)
        c = [k for k in c if k >= (3 if level == 0 else 0)]
        if len(c) < 2:
            break
        a, b = sorted(r.sample(range(len(c)), 2))
        a, b = c[a], c[b]
        n = r.choice(["f%d.h", "sub/f%d.inc", "F%d", "ab%d.s"]) % len(files)
        files[n] = None
        body = out[a:b]
        if level < 4 and r.random() < .4:
            body = splitup(r, body, files, level + 1)
        nl = r.choice(["\n", "\n", "\r\n"])
        text = nl.join(body)
        k = r.random()
        if k < .7:
            text += nl
        elif k < .85:
            # END, also one in a macro, ends this file only
            text += nl + "\t%s" % r.choice(["end", "end", "END", "zend", "zend2", "zend5"]) + nl + "\tthis is behind the end\n\terr\n"
        files[n] = text
        out = out[:a] + ["\t%s\t%s" % (r.choice(["include", "INCLUDE", ".include", "#include"]),
                                      '"%s"' % n)] + out[b:]
    return out


def case(r, i, tier):
    k = r.random()
    if k < .45:
        w = dict(prog.DEFAULT, include=0, incbin=0, list=0)
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w)
        flat = p.build()["main.asm"]
        files = {}
        out = splitup(r, flat.rstrip("\n").split("\n"), files)
        out[1:1] = ["\tmac zend", "\tend", "\terr", "\tendm"] + [s for n in range(2, 6) for s in (
            "\tmac zend%d" % n, "\tzend%s" % (n - 1 if n > 2 else ""), "\terr", "\tendm")]
        files["main.asm"] = "\n".join(out) + "\n"
        local = any("\tzend" in t for n, t in files.items() if n != "main.asm")
        return {"files": files, "args": ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin", "-sO.sym"], "kind": "twin",
                "twin": flat, "local": local, "keys": [len(files), len(out) // 4, local]}
    if k < .7:
        n = r.choice([0, 1, 2, 3, 15, 16, 17, 255, 256, 257, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 5000, 10000, 40000, 70000])
        if r.random() < .3:
            n = r.randrange(3000)
        data = bytes(r.randrange(256) for _ in range(n)) if r.random() < .6 else bytes([r.choice([0, 10, 13, 26, 255])]) * n
        off = r.choice([None, None, 0, 1, 2, n - 1, n, n + 1, n // 2, 1024, 256])
        if off is not None and off < 0:
            off = 0
        name = r.choice(["b.bin", "dir/b", "B", "./b", ".b", "_b"])
        op, pre = '"%s"' % name, ""
        if r.random() < .2:
            op = r.choice(["fname", "_f", ".f", "Z", "f9"])
            pre = '%s set "%s"\n' % (op, name)
        want = data
        if off is not None:
            t = prog.number(r, off)
            if r.random() < .3:
                t = "boff"
                pre += "boff equ %d\n" % off
            op += "," + t
            want = data[off:]
        lines = ["\tprocessor %s" % r.choice(["6502", "68hc11"]), "\torg $1000", "\tdc.b 1", "before\tincbin\t" + op, "after\tdc.b 2"]
        img = b"\1" + want + b"\2"
        if r.random() < .3:
            lines[3:4] = ["\trepeat 2", lines[3].replace("before", ""), "\trepend"]
            img = b"\1" + want * 2 + b"\2"
            lines.append("before equ $1001")
        return {"files": {"main.asm": pre + "\n".join(lines) + "\n", name: data.decode("latin-1")},
                "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"], "kind": "incbin", "image": img.hex(),
                "want": {"before": 0x1001, "after": 0x1000 + len(img) - 1}, "keys": [n, off]}
    # lookup
    dirs = r.choice([["d1", "d2/x", "d3", "d4"], ["in", "inc", "inc/in", "inc/inc"], ["a", "a/b", "a/b/c", "aa"],
                     ["x/y", "x", "y", "y/x"], ["D", "d", "./e", "f/../g"],
                     ["v1.", "v1..", "v.1", "v"], ["m n", "m", "n-", "_+"], ["deep", "deep/q", "q", "p/."]])[:]
    r.shuffle(dirs)
    nopt = r.randrange(0, 4)
    opts = dirs[:nopt]
    inc = dirs[nopt:nopt + r.randrange(0, 3)]
    name = r.choice(["q.h", "Q.inc", "deep/q.h", "q", "a b.h", "deep/../deep/q.h", "x.y.z", "./q.h", ".q", ".deep/q", "deep/../q.h", "_q.h",
                     "@q", "9q.h", "(q)", "-q"])
    files = {}
    places = [""] + dirs
    have = r.sample(places, r.randrange(0, 4))
    full = lambda d: os.path.normpath(os.path.join(d, name))
    used = [os.path.normpath(d) + "/" for d in dirs] + [full(d) for d in have]
    have = [d for d in have if not any(u.startswith(full(d) + "/") for u in used)]     # a directory of that name is no such file
    binary = r.random() < .4
    for d in have:
        m = places.index(d) + 1
        files[(d + "/" if d else "") + name] = chr(m) * 3 if binary else "\tdc.b %d,%d,%d\n" % (m, m, m)
    order = [""] + opts + inc
    win = next((d for d in order if d in have), None)
    lines = ["\tprocessor 6502", "\torg $1000"]
    for d in inc:
        lines.append("\t%s\t\"%s\"" % (r.choice(["incdir", "INCDIR"]), d + r.choice(["", "/"])))
    ref = '"%s"' % name
    if r.random() < .2:
        ref = r.choice(["fname", "_f", ".f", "Z", "f9"])
        lines.append('%s set "%s"' % (ref, name))
    lines += ["\t%s\t%s" % ("incbin" if binary else "include", ref), "\tdc.b $55"]
    files["main.asm"] = "\n".join(lines) + "\n"
    for d in dirs:
        files.setdefault(d + "/other", "x")
    if r.random() < .3:
        lines.append("\tdc.b later")
        files["main.asm"] = "\n".join(lines + ["later equ 9"]) + "\n"
        tail = b"\x55\x09"
    else:
        tail = b"\x55"
    return {"files": files, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"] + ["-I" + d + r.choice(["", "/"]) for d in opts],
            "kind": "lookup", "image": None if win is None else (bytes([places.index(win) + 1]) * 3 + tail).hex(),
            "keys": [nopt, len(inc), sorted(have), win, binary]}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    kind = case["kind"]
    v.count("kind " + kind + (" ok" if o.code == 0 else " refused"))
    v.saw(kind, *case["keys"])
    if p.code == 0:
        common.check_symbols(o, p, v, values_only=True)
    if kind == "twin":
        q = common.basic({"files": {"main.asm": case["twin"]}, "args": case["args"]}, ctx, v)
        if q is None:
            return
        if (q.code == 0) != (o.code == 0):
            v.fail("included and pasted text differ in success", (o.out or b"")[-300:].decode("latin-1"))
        elif o.code == 0:
            v.count("twin bytes compared", len(o.file("O.bin") or b""))
            if o.file("O.bin") != q.file("O.bin"):
                v.fail("included and pasted text give different bytes")
            elif case["local"]:
                v.count("ended by a macro")        # which has its own scope, so the names of local labels differ
            elif o.file("O.sym") != q.file("O.sym"):
                v.fail("included and pasted text give different symbols")
        return
    if case["image"] is None:
        if o.code == 0:
            v.fail("missing file accepted")
        return
    if o.code:
        v.fail("file not included", (o.out or b"")[-300:].decode("latin-1"))
        return
    want, img = bytes.fromhex(case["image"]), o.file("O.bin") or b""
    if kind == "incbin":
        v.count("INCBIN bytes compared", len(want))
    if img != want:
        k = common.diffpos(img, want)
        v.fail("other bytes included" if kind == "incbin" else "another file included",
               "at %d: %s instead of %s (lengths %d, %d)" % (k, img[k:k + 8].hex(), want[k:k + 8].hex(), len(img), len(want)))
        return
    if kind == "incbin":
        vals = {g[0]: g[1] for g in common.symbols(o.file("O.sym") or b"") or []}
        for n, w in case["want"].items():
            if vals.get(n) != w:
                v.fail("label next to INCBIN has another address", "%s is %s instead of %x" % (n, vals.get(n), w))


def need(tier):
    return {"twin bytes compared": 50000, "kind twin ok": 2000, "kind incbin ok": 1000, "kind lookup ok": 700,
            "kind lookup refused": 200, "ended by a macro": 50, "INCBIN bytes compared": 1000000}
