from gen import isa, prog
from . import common

ID = "C12"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "emitted data compared with bytes computed from the generated items, and with a reference model"
NOTE = ("Lists of numbers, strings, symbols and expressions of every length up to the longest line, in every directive "
        "and size suffix on every processor, in macros, repeats, includes and other segments; the bytes are computed "
        "from the items themselves and the rest of the program by the reference assembler.")
RULE = "distinct (processor, directive, suffix, item kinds, item count class, placement) whose bytes were compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

BIG = {"6803", "hd6303", "68hc11", "68705", "68908", "f8"}
SIZES = {"": 1, ".b": 1, ".w": 2, ".l": 4, ".B": 1, ".W": 2, ".L": 4, ".s": None}


def cases(tier):
    return 28000 if tier == "quick" else 200000


def item(r, size, pre, post):
    """(text, values): a string gives one value per character."""
    top = 1 << 8 * size
    n = len(pre) + len(post)        # every definition makes it larger, so names are used once
    k = r.random()
    if k < .25:
        t = "".join(r.choice("abcXYZ019 _-+*/.,:#$%&()[]<>=!?^|~@'") for _ in range(r.choice([1, 1, 2, 3, 8, 30])))
        t = t.replace("/*", "/+").replace("*/", "+/") or "z"
        if r.random() < .2:
            t = "".join(chr(r.randrange(0x81, 0x100)) if r.random() < .5 else c for c in t)
        return '"%s"' % t, [ord(c) for c in t]
    lim = 255 if size == 1 else top - 1
    v = r.choice([0, 1, 127, 128, 255, lim, lim - 1, -1, -128, -lim if size < 4 else -1, lim // 2, r.randint(0, lim),
                  r.randint(0, lim)])
    if k < .6:
        return prog.number(r, v), [v]
    if k < .7:
        d = r.randrange(1, 200)
        return "%d-%d" % (v + d, d), [v]
    if k < .8:
        s = "s%d" % n
        (post if r.random() < .5 else pre).append("%s equ %d" % (s, v))
        return s, [v]
    if k < .88:
        s = "t%d" % n
        t = "".join(r.choice("abcdeXYZ") for _ in range(r.randrange(1, 6)))
        pre.append('%s set "%s"' % (s, t))
        return s, [ord(c) for c in t]
    if k < .94 and size > 1:
        w = r.choice([top, top + 5, top * 3 + 255, -top]) if size < 4 else r.choice([1 << 32, (1 << 40) + 7])
        return prog.number(r, w), [w]
    if k < .97:
        return "[%d]d" % abs(v), [ord(c) for c in str(abs(v))]
    c = r.choice("aZ09~\xe9\xff\x81")
    return "'" + c, [ord(c)]


def enc(vals, size, big):
    out = b""
    for x in vals:
        b = (x & ((1 << 8 * size) - 1)).to_bytes(size, "big")
        out += b if big else b[::-1]
    return out


def directive(r, cpu, pre, post, lim=900):
    """(line, bytes, key)"""
    big = cpu in BIG
    k = r.random()
    serial = len(pre) + len(post)
    if k < .1:
        n = r.choice([1, 2, 5, 20, 100, 200, 340])
        data = bytes(r.randrange(256) for _ in range(n))
        sep = r.choice(["", " ", "  "])
        t = sep.join(("%02x" if r.random() < .5 else "%02X") % b for b in data)
        if len(t) > lim:
            t, data = "%02x" % data[0], data[:1]
        return "\t%s\t%s" % (r.choice(["hex", "HEX", ".hex"]), t), data, ("hex", min(n, 50))
    if k < .2:
        name = "dv%d" % serial
        a, b = r.randrange(1, 4), r.randrange(0, 20)
        suf = r.choice(["", ".b", ".w", ".l"])
        size = SIZES[suf]
        if suf == ".l" and r.random() < .4:
            a = r.choice([0x101, 0x10001, 0x1020305, r.randrange(1 << 26)])
        ta, tb = str(a), str(b)
        if r.random() < .2:                 # coefficients and the mapping itself may be defined later
            ta, d = name + "a", "%sa equ %d" % (name, a)
            (pre if r.random() < .5 else post).append(d)
        if r.random() < .2:
            tb, d = name + "b", "%sb equ %d" % (name, b)
            (pre if r.random() < .5 else post).append(d)
        if r.random() < .15 and "a" not in ta and "b" not in tb:
            pre.append("\tifconst %s\n\tendif" % name)        # looked at before it is defined
            post.append("%s eqm ..*%s+%s" % (name, ta, tb))
        else:
            (pre if r.random() < .85 else post).append("%s eqm ..*%s+%s" % (name, ta, tb))
        vals, items = [], []
        for _ in range(r.choice([1, 2, 5, 20])):
            if r.random() < .25:
                t = "".join(r.choice("ab01") for _ in range(r.randrange(1, 4)))
                if size == 1:
                    t = "".join(r.choice("0123!+") for _ in t)
                elif r.random() < .3:
                    t += chr(r.randrange(0x81, 0x100))
                items.append('"%s"' % t)
                vals += [ord(c) for c in t]
            else:
                x = r.randrange(70) if size == 1 else r.randrange(20000)
                vals.append(x)
                if r.random() < .1:
                    t = "%si%d" % (name, len(items))
                    (pre if r.random() < .5 else post).append("%s equ %d" % (t, x))
                    items.append(t)
                else:
                    items.append(str(x))
        return "\tdv%s\t%s %s" % (suf, name, ",".join(items)), enc([x * a + b for x in vals], size, big), ("dv", suf)
    mn, suf = r.choice([("dc", s) for s in SIZES] * 2 + [
        ("byte", ""), ("word", ""), ("long", ""), (".byte", ""), (".word", ""), (".long", ""), ("BYTE", ""),
        ("byte", ".b"), ("word", ".w"), (".dc", "")])
    size = {"byte": 1, "word": 2, "long": 4}.get(mn.lower().lstrip("."), SIZES[suf] or 2)
    if suf == ".s":
        big = not big
    if cpu == "f8" and r.random() < .2:
        mn, size = r.choice([("db", 1), ("dw", 2), ("dd", 4)])
        suf = ""
        big = True
    want = r.choice([1, 1, 2, 3, 8, 40, 128, 256, 400])
    items, vals, kinds, room = [], [], set(), lim
    while len(items) < want:
        if want > 60 and r.random() < .97:
            t = str(r.randrange(10))
            x = [int(t)]
        else:
            t, x = item(r, size, pre, post)
        room -= len(t) + 2
        if room < 0:
            break
        items.append(t)
        vals += x
        kinds.add(t[0] if t[0] in "\"'$%-[" else "d" if t[0].isdigit() else "s")
    if len(items) > 60 and r.random() < .3:       # a string as long as the line
        n = r.choice([255, 256, 257, 700, 880])
        t = "".join(r.choice("abcdefgh") for _ in range(n))
        items, vals = ['"%s"' % t], [ord(c) for c in t]
    sep = r.choice([",", ",", ", "]) if len(items) < 100 else ","
    return "\t%s%s\t%s" % (mn, suf, sep.join(items)), enc(vals, size, big), \
        (mn.lower(), suf, tuple(sorted(kinds)), min(len(items), 5), len(vals) > 255)


def longline(r):
    """A line around or beyond the longest one that can be read: complete, or refused."""
    n = r.choice([1000, 1015, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1100, 2040, 2046, 2047, 2100, 3500])
    size, suf = r.choice([(1, ".b"), (2, ".w"), (4, ".l")])
    t, vals = "\tdc%s\t" % suf, []
    place = r.choice(["plain", "plain", "label", "macro", "include", "skipped", "if"])
    if place == "label":
        t = "lab" + t
    while True:
        x = r.randrange(10)
        k = r.random()
        s = str(x) if k < .9 else "$%02x" % x if k < .95 else '"%d"' % x
        if len(t) + len(s) > n:
            break
        t += s + ","
        vals.append(ord(str(x)) if s[0] == '"' else x)
    t = t[:-1]
    code = len(t)
    if r.random() < .3:
        t += r.choice([" ", "\t", ""]) + ";" + r.choice(["", "x", " text " * r.choice([1, 30, 400]), "y" * max(0, 1022 - len(t)) + "\tdc.b 7"])
    elif r.random() < .2:
        t += " " * r.choice([1, 5, 50, 1100])
    if ";" in t:
        code = t.index(";") + 1
    eol = r.choice(["\n", "\n", "\r\n"])
    data = enc(vals, size, False)
    body = [t]
    if place == "macro":
        body, data = ["\tmac mm", t, "\tendm", "\tmm", "\tmm"], data * 2
    elif place == "skipped":
        body, data = ["\tif 0", t, "\tendif"], b""
    elif place == "if":
        body = ["\tif 1", t, "\tendif"]
    elif place == "include":
        body = ['\tinclude "i.h"']
    f = {"main.asm": eol.join(["\tprocessor 6502", "\torg $1000", "\tdc.b 1"] + body + ["\tdc.b 2", ""])}
    if place == "include":
        f["i.h"] = t + (eol if r.random() < .5 else "")
    return {"files": f, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "long", "image": (b"\1" + data + b"\2").hex(), "code": code,
            "keys": [[place, suf, min(max(code - 1018, 0), 9), len(t) > 1022, eol]]}


def case(r, i, tier):
    if r.random() < .05:
        return longline(r)
    if r.random() < .15:
        w = dict(prog.DEFAULT, data=60, hex=15, dv=15, instr=10, macro=3, call=5)
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w, errors=r.choice([0, 0, .03]))
        return {"files": p.build(), "args": ["main.asm", "-f%d" % r.randint(1, 3), "-oO.bin"], "kind": "random",
                "keys": []}
    cpu = r.choice(list(isa.CPUS))
    pre, post, body, image, keys, files = [], [], [], b"", [], {}
    for j in range(r.choice([1, 1, 2, 4])):
        line, data, key = directive(r, cpu, pre, post)
        place = r.choice(["plain", "plain", "plain", "macro", "repeat", "include", "label", "if", "seg"])
        if place == "macro":
            body += ["\tmac mm%d" % j, line, "\tendm", "\tmm%d" % j]
        elif place == "repeat":
            n = r.randrange(0, 4)
            body += ["\trepeat %d" % n, line, "\trepend"]
            data = data * n
        elif place == "include":
            files["i%d.h" % j] = line + r.choice(["\n", "", "\r\n"])
            body.append('\tinclude "i%d.h"' % j)
        elif place == "label":
            body += ["lab%d%s" % (j, line), "\tdc.w lab%d-$1000" % j]
            data += enc([len(image)], 2, cpu in BIG)
        elif place == "if":
            body += ["\tif 1", line, "\telse", line, "\tendif"]
        elif place == "seg":
            body += ["\tseg s%d" % j, "\torg $1000+%d" % len(image), line]
        else:
            body.append(line)
        image += data
        keys.append([cpu] + [str(x) for x in key] + [place])
    text = "\tprocessor %s\n\torg $1000\n" % r.choice(isa.SPELL[cpu]) + "\n".join(pre + body + post) + "\n"
    files["main.asm"] = text
    return {"files": files, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "items", "keys": keys, "image": image.hex()}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    if case["kind"] == "random":
        common.stats_seen(v, p)
        v.count("random programs")
        return
    if case["kind"] == "long":
        v.count("long lines")
        if case["code"] > 1022:
            v.count("lines too long to be read")
            if o.code:
                v.saw(*case["keys"][0], "refused")
                return
    if o.code:
        v.fail("valid data refused", (o.out or b"").decode("latin-1")[-300:])
        return
    want = bytes.fromhex(case["image"])
    img = o.file("O.bin")
    v.count("data bytes checked", len(want))
    for k in case["keys"]:
        v.saw(*k)
    if img != want:
        k = common.diffpos(img or b"", want)
        v.fail("data differs", "at %d: %s instead of %s (lengths %d, %d)" % (
            k, (img or b"")[k:k + 12].hex(), want[k:k + 12].hex(), len(img or b""), len(want)))


def need(tier):
    return {"data bytes checked": 100000, "random programs": 500, "long lines": 300, "lines too long to be read": 100}
