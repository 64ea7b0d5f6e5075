from gen import isa, prog
from . import common

ID = "C13"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "simulated memory with location counter, compared with output file and symbol dump; reference model for the rest"
NOTE = ("Sequences of ORG, DS, ALIGN, data, instructions and labels with sizes around every buffer and page boundary "
        "are run together with a small simulation of the memory; every label value and every byte of the flat file is "
        "compared, and moving backwards must fail.")
RULE = "distinct (directive, suffix, size class, fill given, position class) steps whose effect was compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

SIZES = [0, 1, 2, 3, 7, 8, 15, 16, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 5000]


def cases(tier):
    return 24000 if tier == "quick" else 150000


def case(r, i, tier):
    k0 = r.random()
    if k0 < .15:
        w = dict(prog.DEFAULT, org=12, ds=15, align=15, label=12, instr=10, seg=4, rorg=4)
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w, errors=r.choice([0, 0, .03]))
        return {"files": p.build(), "args": ["main.asm", "-f%d" % r.choice([1, 3]), "-oO.bin", "-sO.sym"],
                "kind": "random", "keys": []}
    if k0 < .17:                        # nothing can be placed before an origin is given
        cpu = r.choice(list(isa.CPUS))
        pre = r.choice([[], ["x equ 5"], ["lab"], ["\tseg code"], ["\tif 1"], ["\trorg $100"], ["\tseg.u v", "\tds 3", "\tseg code"]])
        first = r.choice(["\tdc.b 1", "\tdc.w 1,2", "\tnop", "\thex 01", "\tres 1" if cpu == "f8" else "\tds 1", "l2\tdc.b 1", "\tincbin \"main.asm\""])
        fine = r.random() < .2
        lines = pre + (["\torg $100"] if fine else []) + [first] + r.choice([[], ["\tdc.b 2"], ["\torg $200", "\tdc.b 3"]])
        return {"files": {"main.asm": "\tprocessor %s\n" % r.choice(isa.SPELL[cpu]) + "\n".join(lines) + "\n"},
                "args": ["main.asm", "-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym"], "kind": "noorg", "fine": fine, "keys": [], "first": first}
    cpu = r.choice(list(isa.CPUS))
    big = cpu not in ("6502", "65c02")
    org = r.choice([0, 0x80, 0x1000, 0x7ffe, 0xf000, 0xff00, 0x12345])
    pc, fill, first, image = org, 0xff, None, bytearray()
    rpc = None                          # relocated address while RORG is in effect
    reloc = r.random() < .3
    lines, want, keys, post = ["\torg %s" % prog.number(r, org)], {}, [], []
    fail = late = False

    def emit(b):
        nonlocal pc, first, rpc
        if b:
            if first is None:
                first = pc
            gap = pc - first - len(image)
            if gap < 0:
                return False
            image.extend(bytes([fill]) * gap)
            image.extend(b)
            pc += len(b)
            if rpc is not None:
                rpc += len(b)
        return True

    def here():
        return pc if rpc is None else rpc

    def text(v):
        k = r.random()
        if k < .7:
            return prog.number(r, v)
        s = "c%d" % (len(lines) + len(post))
        if k < .8:
            post.append("%s equ %d" % (s, v))
            return s
        if k < .9:
            lines.append("%s equ %d" % (s, v))
            return s
        return "%d+%d" % (v - v // 2, v // 2)

    huge = r.random() < .06            # gaps of many kilobytes

    def value():
        return r.choice([0, 1, 0x7f, 0x80, 0xff, 0xaa, 0xff])
    for j in range(r.choice([2, 4, 8, 16])):
        k = r.random()
        lab = ""
        if r.random() < .5:
            lab = "L%d" % j
        if reloc and r.random() < .2:
            if lab:
                want[lab] = here()
            if rpc is None or r.random() < .3:
                rpc = r.choice([0, 0x80, 0x1003, 0xf000, 0x7fff, r.randrange(65536)])
                lines.append("%s\trorg\t%s" % (lab, prog.number(r, rpc)))
                if lab:
                    want[lab] = rpc
            else:
                rpc = None
                lines.append("%s\trend" % lab)
            ok = True
            key = ("rorg", rpc is None)
        elif k < .25:
            if lab:
                want[lab] = here()
            b = bytes(r.randrange(256) for _ in range(r.choice([1, 1, 3, 10])))
            lines.append("%s\tdc.b %s" % (lab, ",".join(map(str, b))))
            ok = emit(b)
            key = ("dc",)
        elif k < .5:
            n = r.choice(SIZES) if r.random() < .7 else r.randrange(40)
            suf, size = r.choice([("", 1), (".b", 1), (".w", 2), (".l", 4)]) if cpu != "f8" else r.choice(
                [(".w", 2), (".l", 4), ("res", 1)])
            op = text(n)
            mn = "res" if suf == "res" else "ds" + suf
            if cpu == "f8" and mn.startswith("ds"):
                mn, size = "res" + suf, size
            f = 0
            given = r.random() < .6
            if given:
                f = r.choice([0, 1, 0xff, 0x80, 0x1234, 0x12345678, -1, 0x100])
                op += "," + text(f)
            if lab:
                want[lab] = here()
            lines.append("%s\t%s\t%s" % (lab, mn, op))
            e = (f & ((1 << 8 * size) - 1)).to_bytes(size, "big" if big else "little")
            ok = emit(e * n)
            key = (mn, n, given, f)
        elif k < .7:
            n = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096])
            if huge and r.random() < .5:
                n = r.choice([0x2000, 0x4000, 0x8000, 0x10000, 50000])
            op = text(n)
            f = 0
            if r.random() < .5:
                f = value()
                op += "," + text(f)
            lines.append("%s\talign\t%s" % (lab, op))
            gap = -here() % n
            ok = emit(bytes([f]) * gap)
            if lab:
                want[lab] = here()          # a label on ALIGN gets the aligned address
            key = ("align", n, gap == 0, f)
        elif k < .85:
            d = r.choice(SIZES) if r.random() < .6 else r.randrange(100)
            if huge and r.random() < .5:
                d = r.choice([0x2000, 0x4001, 0x7fff, 0x8000, 0x8001, 0xc000, 0x10001, r.randrange(70000)])
            if r.random() < .1:
                d = -r.choice([1, 2, 10, 300])
            t = pc + d
            if t < 0:
                t = 0
            # going back from an origin not yet known gives an address far outside of the size limit
            if rpc is None and any("dc.b" in s or "\tds" in s or "\tres" in s for s in lines) and r.random() < .3 and not (late and t < pc):
                op = ".%+d" % (t - pc)
            else:
                n = len(post)
                op = text(t)
                late = len(post) > n
            keep = fill
            if r.random() < .4:
                fill = value()
                op += "," + prog.number(r, fill)
            if rpc is not None and not lab and r.random() < .3:      # or a RORG, if one is in effect
                d = 0
                rpc = r.choice([0, 5, 0x2000, 0xfff0])
                lines.append(r.choice([".\tequ\t%s", ". = %s", "*=%s"]) % prog.number(r, rpc))
                fill, t = keep, pc
            elif not lab and r.random() < .4 and rpc is None:     # assigning to the location symbol is an ORG
                lines.append(r.choice([".\tequ\t%s", ". = %s", ".=%s", "*=%s", "* = %s", "*\tEQU\t%s"]) % op)
            else:
                lines.append("%s\torg\t%s" % (lab, op))
            pc = t
            if lab:
                want[lab] = here()          # and one on ORG the new origin
            ok = True
            key = ("org", d, fill, rpc is None)
        else:
            lines.append("%s:" % ("M%d" % j))
            want["M%d" % j] = here()
            ok = True
            key = ("label",)
        keys.append(list(key))
        if not ok:
            fail = True
            break
    t = "\tprocessor %s\n" % r.choice(isa.SPELL[cpu]) + "\n".join(lines + post) + "\n"
    return {"files": {"main.asm": t}, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"], "kind": "sim", "keys": keys,
            "fail": fail, "want": want, "image": bytes(image).hex()}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    if p.code == 0:
        common.check_symbols(o, p, v, values_only=True)
    if case["kind"] == "noorg":
        v.count("origin given late" if case["fine"] else "no origin")
        v.saw("no origin", case["first"], case["fine"])
        if not case["fine"] and o.code == 0:
            v.fail("bytes without an origin are accepted")
        return
    if case["kind"] == "random":
        common.stats_seen(v, p)
        v.count("random programs")
        return
    for k in case["keys"]:
        v.saw(*k)
    if (o.code != 0) != case["fail"]:
        v.fail("moving the origin backwards accepted" if case["fail"] else "valid program refused",
               (o.out or b"").decode("latin-1")[-300:])
        return
    if case["fail"]:
        v.count("backwards")
        return
    want = bytes.fromhex(case["image"])
    img = o.file("O.bin") or b""
    v.count("steps checked", len(case["keys"]))
    if img != want:
        k = common.diffpos(img, want)
        v.fail("byte at another place", "at %d: %s instead of %s (lengths %d, %d)" % (
            k, img[k:k + 12].hex(), want[k:k + 12].hex(), len(img), len(want)))
        return
    vals = {g[0]: g[1] for g in common.symbols(o.file("O.sym") or b"") or []}
    for n, w in case["want"].items():
        v.count("labels checked")
        if vals.get(n) != w:
            v.fail("label has another address", "%s is %s instead of %x" % (n, vals.get(n), w))
            return


def need(tier):
    return {"steps checked": 20000, "labels checked": 10000, "backwards": 50, "random programs": 500}
