from gen import isa, prog
from . import common

ID = "C15"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "the same program assembled in all three formats, the files decoded and compared with each other and a model"
NOTE = ("Every program is assembled with -f1, -f2 and -f3; the hunks are decoded by an independent parser, laid out "
        "over the fill bytes and compared with the flat image, and all three files are compared with the reference "
        "assembler, including hunks at the 16-bit length limit and empty outputs.")
RULE = "distinct (hunk count class, hunk length class, gaps, backwards, size class) outputs compared across formats"
ASSUME = common.ASSUME


def cases(tier):
    return 7000 if tier == "quick" else 60000


def case(r, i, tier):
    k = r.random()
    if k < .3:
        p = prog.Prog(r, size=r.choice([3, 10, 30]), weights=dict(prog.DEFAULT, org=8, seg=4))
        return {"files": p.build(), "args": ["main.asm", "-f3", "-oO.bin"]}
    lines = ["\tprocessor %s" % r.choice(["6502", "68hc11", "68705"])]
    a = r.choice([0, 0x100, 0x1000, 0x8000, 0xff00])
    lines.append("\torg $%x%s" % (a, r.choice(["", ",$00", ",$55"])))
    back = r.random() < .15
    large = r.random() < .12
    for j in range(r.choice([0, 1, 3, 8, 20])):
        k = r.random()
        if k < .3:
            a += r.choice([1, 2, 16, 255, 256, 1023, 1024, 1025, 3000]) if not back or r.random() < .5 else \
                -r.choice([1, 50, 300])
            if a < 0:
                a = 0
            lines.append("\torg $%x%s" % (a, r.choice(["", "", ",$33"])))
        elif k < .5:
            n = r.choice([1, 5, 200, 1023, 1024, 1025, 2048]) if not large else r.choice(
                [30000, 60000, 65534, 65535, 65536, 65537, 70000, 131070, 131071])
            lines.append("\tds %d,$%x" % (n, r.randrange(256)))
            a += n
        elif k < .9:
            n = r.randrange(1, 12)
            lines.append("\tdc.b %s" % ",".join(str(r.randrange(256)) for _ in range(n)))
            a += n
        elif k < .94:
            lines += ["\tseg.u u%d" % j, "\torg $80", "\tds 5", "\tseg s%d" % j, "\torg $%x" % a]
        elif k < .97:
            lines += ["\trorg $2000", "\tdc.b 1,2", "\trend"]
            a += 2
        else:
            lines.append("\talign 4")
            a += -a % 4
    return {"files": {"main.asm": "\n".join(lines) + "\n"}, "args": ["main.asm", "-f3", "-oO.bin"]}


def judge(case, ctx, v):
    res = {}
    for f in (1, 2, 3):
        args = ["main.asm", "-f%d" % f, "-oO.bin"]
        o, p = common.agree(case, ctx, v, args=args, tag="-f%d: " % f)
        if o is None or v.kind != "held":
            return
        res[f] = (o, p)
    img = {f: o.file("O.bin") if o.code == 0 else None for f, (o, p) in res.items()}
    if (img[1] is None) != (img[3] is None):
        v.fail("formats 1 and 3 differ in success")
        return
    if img[2] is None:
        v.count("refused")
        if img[1] is not None:
            v.fail("format 2 refused, format 1 accepted")
        return
    hunks, pos = [], 0
    while pos < len(img[2]):
        if pos + 4 > len(img[2]):
            v.fail("hunk header cut short", "at %d of %d" % (pos, len(img[2])))
            return
        a, n = img[2][pos] | img[2][pos + 1] << 8, img[2][pos + 2] | img[2][pos + 3] << 8
        if pos + 4 + n > len(img[2]):
            v.fail("hunk longer than the file", "at %d: length %d" % (pos, n))
            return
        hunks.append((a, img[2][pos + 4:pos + 4 + n]))
        pos += 4 + n
    v.count("hunks decoded", len(hunks))
    # what was emitted, in order, by the model
    p = res[2][1]
    want = [(a, b) for a, b, t in p.emits if t != "fill" and b]
    flat = b"".join(b for a, b in want)
    if b"".join(b for a, b in hunks) != flat:
        v.fail("hunks hold other bytes", "%d bytes instead of %d" % (sum(len(b) for a, b in hunks), len(flat)))
        return
    at = {}
    k = 0
    for a, b in want:
        at[k] = a
        k += len(b)
    k = 0
    for a, b in hunks:
        if b and k in at and at[k] & 0xffff != a:
            v.fail("hunk at another address", "%x instead of %x" % (a, at[k]))
            return
        k += len(b)
    if img[1] is None:
        v.count("backwards in a flat format")
        v.saw("backwards", min(len(hunks), 9))
        return
    if img[1][2:] != img[3]:
        v.fail("format 3 is not format 1 without its origin", "%s / %s" % (common.clip(img[1]), common.clip(img[3])))
        return
    v.count("compared in three formats")
    if hunks and img[3]:
        if img[1][0] | img[1][1] << 8 != hunks[0][0]:
            v.fail("formats 1 and 2 start at different origins")
            return
        end = max(a + len(b) for a, b in hunks)
        if end <= 0x10000 and len(img[3]) <= 0x10000 - hunks[0][0]:
            mem = bytearray(img[3])
            for a, b in hunks:
                mem[a - hunks[0][0]:a - hunks[0][0] + len(b)] = b
            if bytes(mem) != img[3]:
                v.fail("hunks laid out give another image")
                return
            # and every byte of the flat image that is in no hunk is fill
            if len(mem) != end - hunks[0][0]:
                v.fail("hunks laid out give another image", "length")
                return
            v.count("laid out")
    v.saw(min(len(hunks), 12), sorted({len(b) if len(b) < 4 or len(b) in (1023, 1024, 1025, 65535) else len(b).bit_length() + 10
                                       for a, b in hunks})[:6], len(img[3]).bit_length())


def need(tier):
    return {"compared in three formats": 2000, "hunks decoded": 5000, "laid out": 1500, "backwards in a flat format": 20}
