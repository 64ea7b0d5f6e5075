from gen import isa, prog
from . import common

ID = "C14"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "simulated segment counters compared with dumped labels and emitted bytes; reference model for the rest"
NOTE = ("Programs that switch between several initialised and uninitialised segments, with ORG, RORG and REND in each "
        "of them and forward references that force further passes, run together with a simulation of all counters; "
        "labels, location symbol and bytes are compared.")
RULE = "distinct (step, segment kind, relocated or not, re-entered or not, passes) whose effect was compared"
ASSUME = common.ASSUME
NO_MINIMISE = True


def cases(tier):
    return 24000 if tier == "quick" else 150000


class Seg:
    def __init__(self, bss):
        self.bss, self.org, self.rorg = bss, 0, None
        self.known = False


def case(r, i, tier):
    if r.random() < .15:
        w = dict(prog.DEFAULT, seg=20, rorg=20, ds=10, label=15, instr=10, org=3)
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w, errors=r.choice([0, 0, .03]))
        return {"files": p.build(), "args": ["main.asm", "-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym"],
                "kind": "random", "keys": []}
    cpu = r.choice([c for c in isa.CPUS if c != "f8"])
    big = cpu not in ("6502", "65c02")
    names = r.sample(["code", "data", "VARS", "zp", "bank1", "x.y"] if r.random() < .5 else
                     ["code", "Code", "CODE", "cod", "code1", "code.", "code_long_name_" + "x" * 60, "code_long_name_" + "x" * 59 + "y",
                      "odec", "c"], r.randrange(1, 5))
    segs, lines, want, keys, emits, post = {}, [], {}, [], [], []
    nxt = [0x400 * r.randrange(1, 8)]
    cur = None
    first_plain = r.random() < .3
    if first_plain:                     # code in the initial segment, before any SEG
        cur = segs[""] = Seg(False)
        lines.append("\torg $%x" % nxt[0])
        cur.org, cur.known = nxt[0], True
        nxt[0] += 0x400
    curname = ""

    def here():
        return cur.rorg if cur.rorg is not None else cur.org

    def adv(n):
        cur.org += n
        if cur.rorg is not None:
            cur.rorg += n
    for j in range(r.choice([4, 8, 16, 30])):
        k = r.random()
        again = None
        if cur is None or k < .22:
            n = r.choice(names)
            again = n in segs
            if not again:
                segs[n] = Seg(r.random() < .4)
            cur = segs[n]
            curname = n
            suf = (".u" if cur.bss else "") if not again else r.choice(["", ".u"]) if cur.bss else ""
            lines.append("\t%s%s\t%s" % (r.choice(["seg", "SEG", ".seg"]) if not suf else r.choice(["seg", "SEG"]), suf, n))
            key = "seg"
            if not again:
                a = r.choice([0x80, 0, 0x200]) if cur.bss else nxt[0]
                if not cur.bss:
                    nxt[0] += 0x400
                op = prog.number(r, a)
                if r.random() < .2:
                    op = "SO%d" % j
                    post.append("%s equ %d" % (op, a))
                if emits and not cur.bss and r.random() < .08:
                    key = "seg without origin"      # counts from 0 in every pass, its labels stay unknown
                else:
                    lines.append("\torg\t%s" % op)
                    cur.org, cur.known = a, True
        elif k < .3:
            a = r.choice([0, 0x80, 0xf000, 0xfffe, r.randrange(0x10000), r.choice([0x12345, 0x7ffffffe, 0xfffffffe, 0x123456789a])])
            lab = "R%d" % j if r.random() < .4 else ""
            op = prog.number(r, a)
            if r.random() < .2:
                op = "RO%d" % j         # known only in a later pass
                post.append("%s equ %d" % (op, a))
            lines.append("%s\t%s\t%s" % (lab, r.choice(["rorg", "RORG"]), op))
            cur.rorg = a
            if lab:
                want[lab] = a
            key = "rorg"
        elif k < .33 and cur.known:
            # assigning to the location symbol is RORG while relocated and ORG otherwise
            d = r.choice([0, 1, 3, 16, 40])
            a = here() + d
            lines.append(r.choice([".\tequ\t%s", ". = %s", ".=%s", "*=%s", "* = %s", "*\tEQU\t%s"]) %
                         r.choice([".+%d" % d, "$%x" % a]))
            if cur.rorg is not None:
                cur.rorg = a
            else:
                cur.org = a
            key = "assign"
        elif k < .38:
            lines.append("\t%s" % r.choice(["rend", "REND"]))
            cur.rorg = None
            key = "rend"
        elif k < .55:
            n = "L%d" % j
            lines.append(n + r.choice(["", ":"]))
            if cur.known or cur.rorg is not None:
                want[n] = here()
            key = "label"
        elif k < .7:
            n = r.choice([1, 2, 7, 16, 40])
            lab = "D%d" % j if r.random() < .6 else ""
            if lab and (cur.known or cur.rorg is not None):
                want[lab] = here()
            lines.append("%s\tds\t%d" % (lab, n))
            if not cur.bss:
                emits.append((cur.org, bytes(n)))
            adv(n)
            key = "ds"
        elif k < .78 and not cur.bss and (cur.known or cur.rorg is not None):
            n = r.choice([2, 4, 8, 16])
            g = -here() % n
            lines.append("\talign\t%d,$aa" % n)
            if g:
                emits.append((cur.org, b"\xaa" * g))
            adv(g)
            key = "align"
        elif k < .9 and not cur.bss and (cur.known or cur.rorg is not None):
            t = r.choice([".", "*"])
            lines.append("\tdc.w\t%s" % t)
            emits.append((cur.org, (here() & 0xffff).to_bytes(2, "big" if big else "little")))
            adv(2)
            key = "dot"
        elif not cur.bss:
            n = "F%d" % j
            x = r.randrange(0x10000)
            how = r.random()
            if how < .5 or not cur.known:
                lines.append("\tdc.w\t%s" % n)
                post.append("%s equ %d" % (n, x))
            else:
                lines.append("%s set .\n\tdc.w\t%s" % (n, n))
                x = here()
            emits.append((cur.org, (x & 0xffff).to_bytes(2, "big" if big else "little")))
            adv(2)
            key = "fwd"
        else:
            continue
        keys.append([key, cur.bss, cur.rorg is not None, again, curname == ""])
    t = "\tprocessor %s\n" % r.choice(isa.SPELL[cpu]) + "\n".join(lines + post) + "\n"
    return {"files": {"main.asm": t}, "args": ["main.asm", "-f2", "-oO.bin", "-sO.sym"], "kind": "sim", "keys": keys,
            "want": want, "emits": [[a, b.hex()] for a, b in emits]}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    if p.code == 0:
        common.check_symbols(o, p, v, values_only=True)
    if case["kind"] == "random":
        common.stats_seen(v, p)
        v.count("random programs")
        return
    for k in case["keys"]:
        v.saw(*k, p.passes > 1)
    if o.code:
        v.fail("valid program refused", (o.out or b"").decode("latin-1")[-300:])
        return
    img = o.file("O.bin") or b""
    got, pos = [], 0
    while pos + 4 <= len(img):
        a, n = img[pos] | img[pos + 1] << 8, img[pos + 2] | img[pos + 3] << 8
        got += [(a + x, b) for x, b in enumerate(img[pos + 4:pos + 4 + n])]
        pos += 4 + n
    want = [(a + x, b) for a, h in case["emits"] for x, b in enumerate(bytes.fromhex(h))]
    v.count("bytes placed", len(want))
    if got != want:
        k = next((x for x in range(min(len(got), len(want))) if got[x] != want[x]), min(len(got), len(want)))
        v.fail("emitted bytes differ", "byte %d: %s instead of %s" % (k, got[k:k + 2], want[k:k + 2]))
        return
    vals = {g[0]: g[1] for g in common.symbols(o.file("O.sym") or b"") or []}
    for n, w in case["want"].items():
        v.count("labels checked")
        if vals.get(n) != w:
            v.fail("label has another address", "%s is %s instead of %x" % (n, vals.get(n), w))
            return


def need(tier):
    return {"bytes placed": 100000, "labels checked": 10000, "random programs": 500}
