import re
from gen import isa, prog
from . import common

ID = "C23"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the listing: parser, tagged lines with known number, address and bytes, cross-check with the output; model"
NOTE = ("Every record of the listing is parsed. Generated lines carry a unique comment by which they are found again, with "
        "the line number, address, mark and bytes the generator computed, and the same bytes must be in the output file at "
        "that address; whole listings of random programs are compared record by record with the reference assembler, for "
        "-L in every pass.")
RULE = "distinct (line kind, number of bytes, mark, segment kind, address size, file level) records compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

REC = re.compile(r"^( *\d+) ([U ])([0-9a-f]{4,}) (\?\?\?\?|    ) (str|   ) (eqm|   ) (....)((?:[0-9a-f]{2} |   ){3}(?:[0-9a-f]{2}|  ))([ *-])(.*)$", re.S)
HEAD = re.compile(r"^------- FILE (.*?)(?: LEVEL (\d+) PASS (\d+))?$")


def cases(tier):
    return 16000 if tier == "quick" else 100000


def parse(raw):
    """[('head', name, level, pass)] and [('rec', lineno, bss, addr, unknown, bytes, mark, label, rest)] in order."""
    res = []
    for line in raw.decode("latin-1").split("\n")[:-1]:
        m = HEAD.match(line)
        if m:
            res.append(("head", m.group(1), int(m.group(2) or 0), int(m.group(3) or 0)))
            continue
        e = line.expandtabs(8)
        m = REC.match(e.ljust(60))
        if not m or len(m.group(1)) < 7:
            res.append(("text", line))
            continue
        b = bytes.fromhex(m.group(8).replace(" ", ""))
        res.append(("rec", int(m.group(1)), m.group(2) == "U", int(m.group(3), 16), m.group(4) != "    ", b,
                    m.group(9), m.group(10)))
    return res


def wide(r, text):
    out = []
    for line in text.split("\n"):
        if '"' not in line and "'" not in line and "*" not in line and len(line) < 500:
            f = line.split("\t", 2)
            f[-1] = re.sub(" ", lambda m: " " * r.choice([1, 2, 3, 9]), f[-1])
            line = "\t".join(f)
        out.append(line)
    return "\n".join(out)


def case(r, i, tier):
    opt = r.choice(["-l", "-l", "-L"])
    k0 = r.random()
    if k0 < .45:
        w = dict(prog.DEFAULT, list=6, cond=8, seg=5, include=4, macro=6, call=8)
        p = prog.Prog(r, size=r.choice([8, 20, 50]), weights=w, fwd=r.choice([.1, .4]))
        a = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin", opt + "O.lst"]
        r.shuffle(a)
        files = p.build()
        if r.random() < .3:         # more blanks in the operands
            files = {n: wide(r, t) if n.endswith((".asm", ".h")) else t for n, t in files.items()}
        return {"files": files, "args": ["main.asm"] + a, "kind": "random", "opt": opt}
    # tagged lines
    org = r.choice([0, 0x80, 0x1000, 0xf000, 0x23456])
    image, want, files = bytearray(), [], {}
    state = {"pc": org, "on": True, "bss": False, "upc": 0x40, "roff": None, "n": 0}
    fwd = r.random() < .4
    far = r.random() < .006

    def block(lines, level, fname, size):
        for _ in range(size):
            k = r.random()
            state["n"] += 1
            tag = "tag%d" % state["n"]
            at = state["upc"] if state["bss"] else state["pc"]
            lab = "L%d" % state["n"] if r.random() < .3 else ""
            if k < .45 and not state["bss"]:
                n = r.choice([1, 1, 2, 3, 4, 5, 8, 20])
                b = bytes(r.randrange(256) for _ in range(n))
                t = "%s\tdc.b\t%s" % (lab, ",".join("$%02x" % x for x in b))
                if k < .1:
                    b = bytes([0xa9, b[0]])
                    t = "%s\tlda\t#%d" % (lab, b[1])
                elif k < .13:
                    b = b"\xea"
                    t = "%s\tnop" % lab
                elif k < .18:
                    b = b"\x4c" + b"\x07\x12"
                    t = "%s\tjmp\t%s" % (lab, "fwd" if fwd else "$1207")
                elif k < .2:
                    w = "".join(r.choice("abcdefgh") for _ in range(r.choice([254, 255, 256, 257, 300, 700])))
                    b = b"".join(bytes([ord(c), 0, 0, 0]) for c in w)
                    t = '%s\tdc.l\t"%s"' % (lab, w)
                elif k < .24:
                    b = bytes([r.randrange(256)]) * 3
                    t = "%s\tds\t3,%d" % (lab, b[0])
            elif k < .5 and state["bss"]:
                n = r.randrange(1, 9)
                t, b = "%s\tds\t%d" % (lab, n), bytes(n)
            elif k < .6:
                t, b = "L%d" % state["n"], b""
            elif k < .68:
                cond = r.random() < .5
                lines.append("\tif %d" % cond)
                if cond:
                    block(lines, level, fname, r.randrange(1, 3))
                else:
                    for _ in range(r.randrange(1, 3)):
                        state["n"] += 1
                        lines.append("\tdc.b\t1,2,3\t;tag%d" % state["n"])
                        if state["on"]:
                            want.append(["tag%d" % state["n"], len(lines), None, "", "-", fname])
                lines.append("\tendif")
                continue
            elif k < .74:
                state["on"] = not state["on"]
                lines.append("\tlist %s" % ("on" if state["on"] else "off"))
                continue
            elif k < .8:
                if state["roff"] is not None:
                    continue
                state["bss"] = not state["bss"]
                lines.append("\tseg.u ram" if state["bss"] else "\tseg code")
                if state["bss"] and state["upc"] == 0x40:
                    lines.append("\torg $40")
                continue
            elif k < .86 and not state["bss"]:
                if state["roff"] is None:
                    new = r.choice([0xa000, 0x10, 0x8123])
                    lines.append("\trorg $%x" % new)
                    state["roff"] = new - state["pc"]
                else:
                    lines.append("\trend")
                    state["roff"] = None
                continue
            elif k < .9 and level < 3 and state["on"]:
                n = "inc%d.asm" % state["n"]
                sub = []
                lines.append('\tinclude "%s"' % n)
                block(sub, level + 1, n, r.randrange(1, 5))
                if not state["on"]:
                    sub.append("\tlist on")
                    state["on"] = True
                files[n] = "\n".join(sub) + "\n"
                continue
            elif k < .94:
                if far and len(lines) < 9000:
                    lines.extend([""] * (r.choice([9998, 9999, 10000, 32767, 65535]) - len(lines) - r.randrange(4)))
                lines.append(r.choice(["", "; plain comment", "; " + "long comment " * 120, "/* a", ]))
                if lines[-1] == "/* a":
                    lines.append("  b */")
                continue
            else:
                continue
            lines.append(t + "\t;" + tag)
            if state["on"]:
                want.append([tag, len(lines), at, b[:4].hex(), "*" if len(b) > 4 else " ", fname])
                if state["bss"]:
                    want[-1].append("U")
                elif b:
                    want[-1] += ["", state["pc"]]
            else:
                want.append([tag, 0, None, "", "hidden", fname])
            if not state["bss"]:
                image.extend(b)
                state["pc"] += len(b)
            else:
                state["upc"] += len(b)
    lines = ["\tprocessor 6502", "\tseg code", "\torg $%x" % org]
    block(lines, 1, "main.asm", r.choice([4, 10, 30]))
    if not state["on"]:
        lines.append("\tlist on")
    if fwd:
        lines.append("fwd\tequ\t$1207")
    files["main.asm"] = "\n".join(lines) + "\n"
    return {"files": files, "args": ["main.asm", "-f3", "-oO.bin", opt + "O.lst"], "kind": "tagged", "opt": opt, "want": want,
            "image": bytes(image).hex(), "org": org}


def records(p):
    return [(l, b, a & 0xffffffffffffffff, u, bytes(g), m, x0, x1, (x0 + x1 + x2 + x3 + (";" + x4 if x4 else "")))
            for l, b, a, u, g, m, x0, x1, x2, x3, x4 in p.listing]


def squeeze(s):
    """Text without white space and case; directives may be listed in lower case."""
    return "".join(s.split()).lower()


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held" or o.code:
        return
    raw = o.file("O.lst")
    if raw is None:
        v.fail("no listing")
        return
    items = parse(raw)
    starts = [k for k, it in enumerate(items) if it[0] == "head" and it[2] == 1]
    passes = [items[k][3] for k in starts]
    want = list(range(1, p.passes + 1)) if case["opt"] == "-L" else [p.passes]
    v.count("%s with %d passes" % (case["opt"], min(p.passes, 4)))
    if passes != want:
        v.fail("listing holds other passes than asked for", "%s instead of %s" % (passes, want))
        return
    last = [it for it in items[starts[-1]:] if it[0] == "rec"]
    exp = records(p)
    if len(last) != len(exp):
        k = next((k for k in range(min(len(last), len(exp))) if last[k][1:7] != exp[k][:6]), min(len(last), len(exp)))
        v.fail("listing has another number of lines", "%d instead of %d; first difference: %s / %s"
               % (len(last), len(exp), last[k:k + 1], exp[k:k + 1]))
        return
    for g, w in zip(last, exp):
        if g[1:7] != w[:6]:
            v.fail("listing line differs", "%s instead of %s" % (g, w))
            return
        if not g[7].startswith((w[6].ljust(10) + " " + w[7]).expandtabs(8).rstrip()[:40]) and "\t" not in w[6]:
            v.fail("listing line has another label or mnemonic", "%s instead of %s" % (g[7][:60], w[6:]))
            return
        if squeeze(g[7]) != squeeze(w[8]):
            v.fail("listing line has another text", "%r instead of %r" % (squeeze(g[7]), squeeze(w[8])))
            return
        v.saw(len(g[5]), g[6], g[2], g[4], len("%x" % g[3]), bool(w[6]), w[7].lower())
    v.count("records compared", len(exp))
    if case["kind"] != "tagged":
        return
    if "image" in case and o.file("O.bin") != bytes.fromhex(case["image"]):
        v.fail("listing directives or layout changed the code")
        return
    img = o.file("O.bin")
    seen, cur = {}, None
    for it in items[starts[-1]:]:
        if it[0] == "head":
            cur = it[1]
        elif it[0] == "rec":
            t = re.search(r";(tag\d+)", it[7])
            if t:
                seen.setdefault(t.group(1), []).append((it, cur))
    for w in case["want"]:
        tag, lineno, addr, b, mark, fname = w[:6]
        got = seen.get(tag, [])
        if mark == "hidden":
            if got:
                v.fail("line after LIST OFF is listed", str(got[0]))
                return
            v.count("hidden lines")
            continue
        if len(got) != 1:
            v.fail("line is listed %d times" % len(got), str(w))
            return
        it, cur = got[0]
        if it[1] != lineno:
            v.fail("wrong line number in the listing", "%s instead of %d" % (it, lineno))
        elif cur != fname:
            v.fail("line listed under another file", "%s: %s instead of %s" % (it, cur, fname))
        elif it[5].hex() != b:
            v.fail("wrong bytes in the listing", "%s instead of %s" % (it, b))
        elif it[6] != mark:
            v.fail("wrong mark in the listing", "%s instead of %r" % (it, mark))
        elif addr is not None and it[3] != addr:
            v.fail("wrong address in the listing", "%s instead of %x" % (it, addr))
        elif addr is not None and it[2] != (len(w) > 6 and w[6] == "U"):
            v.fail("uninitialised segment not marked in the listing", str(it))
        elif len(w) > 7 and img[w[7] - case["org"]:][:len(it[5])] != it[5]:
            v.fail("listing and output file disagree", str(it))
        if v.kind != "held":
            return
        v.count("tagged " + {"-": "skipped", "*": "long", " ": "plain"}[mark])
        v.saw("tagged", len(b), mark, len(w), fname == "main.asm", lineno % 10)


def need(tier):
    return {"records compared": 100000, "tagged plain": 10000, "tagged skipped": 1000, "tagged long": 1000, "hidden lines": 1000,
            "-L with 2 passes": 200, "-l with 2 passes": 300}
