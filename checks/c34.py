import re
from gen import isa, prog
from model import refasm as M
from . import c25, common, isa_common

ID = "C34"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the console: wording per kind of error learned from clear-cut faults, then matched on every other message; model"
NOTE = ("One clear-cut fault of every kind shows how the program words it; the wordings must differ from kind to kind. Then "
        "bad statements for all processors, planted and random faulty programs run, and every message must have the "
        "wording of its kind and contain the mnemonic, operand, name or number that is at fault.")
RULE = "distinct (kind of error, offending text) pairs found in a message"
ASSUME = common.ASSUME
NO_MINIMISE = True

P, O = "\tprocessor 6502\n", "\torg $1000\n"
CLEAR = {       # kind: sources of which the only message is of that kind
    2: P + O + '\tincbin "nofile"\n', 6: P + O + "\tdc.b 1 2\n", 8: P + O + "\tdc.b ]\n", 9: P + O + "\tdc.b 1/0\n",
    10: P + O + "\tfoobar 12\n", 11: P + O + "\tsta #1\n", 12: P + O + "\tldx.wx $12\n",
    13: P + O + "\tmac mm\n\tdc.b {1}\n\tendm\n\tmm\n", 14: P + O + "\tmac mm\n\tnop\n", 15: P + O + "\tdc.b `\n",
    16: P + O + "\tbne .+300\n", 17: P + O + "\terr\n", 18: P + O + "\tnop\n\torg $800\n\tnop\n",
    19: P + O + "x equ 1\nx equ 2\n", 20: P + O + "\tlda #256\n", 21: P + O + "\tjmp $12345\n",
    22: "\tprocessor 68705\n" + O + "\tbset 8,$12\n", 23: "\tprocessor 68hc11\n" + O + "\tbrset $12,$34\n", 24: P + O + "lab\n\tnop\nlab\n",
    25: P + "\tmac mm\n\tnop\n\tendm\n\tmac mm\n\tendm\n", 26: P + "\torg $1000,nowhere\n", 27: "\tprocessor 6510\n",
    28: P + O + "\trepeat -1\n\tnop\n\trepend\n\terr\n", 30: P + "\tprocessor f8\n", 42: P + O + "\tnop */\n",
    43: P + O + "\tds 1\nx set \"a\"\n\tdc.b 1\n\tdv x 1\n",
    32: "\tprocessor f8\n" + O + "\tsl 2\n", 33: "\tprocessor f8\n" + O + "\tlis 16\n", 34: "\tprocessor f8\n" + O + "\tlisl 8\n",
    38: P + O + "\tmac rr\n\trr\n\tendm\n\trr\n",
    35: "\tprocessor f8\n" + O + "\tas 15\n", 36: "\tprocessor f8\n" + O + "\tjmp 65536\n", 37: "\tprocessor f8\n" + O + "\tlr w,a\n",
}
FINAL = {       # status: the run that ends with it and the words for that
    1: (P + O, ["extra", "another"]), 2: (P + O, ["-onodir/O.bin"]), 3: (P + O + "\tdc.b nosuch\n", []),
    4: (P + O + "a equ b\nb equ c\nc equ d\nd equ 1\n\tdc.b a\n", ["-p2"]), 41: (P + O + "\tnop /* open\n", []),
}
EXTRA = {25: ["-S"], 21: ["-S"]}


def cases(tier):
    return 20000 if tier == "quick" else 120000


def detail(kind, text):
    """What the model names in a message of this kind."""
    pre, s, post = M.ERRTEXT[kind].partition("%s")
    return text[len(pre):len(text) - len(post)] if s else None


def wanted(kind, text):
    """The parts of it that must be found in the message."""
    d = detail(kind, text)
    if d is None or kind == 39:
        return []
    if kind == 38:                              # the macro or the file
        m = re.search(r"\[(.*)\]", d)
        return m.groups() if m else [] if "(" in d else [d]
    if kind in (20, 21):
        d = re.sub(r", user requested byte mode$|^negative |^unknown && > 256 |^byte |^word |^swapped ", "", d)
    if kind == 6:
        d = re.sub("^Bad Hex Digit ", "", d)
    if kind in (20, 21, 24):
        return d.split(" ", 1)
    return [d]


def squeeze(t):
    return re.sub(r"[\s\x80]+", "", t).lower()


def messages(o, fmt):
    """Texts of the messages, without the place they name."""
    res = []
    for l in (o.out or b"").decode("latin-1").split("\n"):
        m = c25.PAT[fmt].match(l)
        if m:
            res.append(l[m.end():])
        elif res and l.startswith(" --> "):
            res[-1] += "\n" + l
    return res


def final(o):
    """The words a failed run ends with."""
    t = (o.out or b"").decode("latin-1").rstrip("\n").split("\n")
    if t[-1].startswith("Fatal assembly error: "):
        return t[-1]
    return re.sub(r"\d+", "#", t[-1]) if "Aborting assembly" in t else None


_known = None
_final = None


def learn_final(ctx, v):
    global _final
    if _final is not None:
        return _final
    known = {}
    for status, (src, opts) in FINAL.items():
        o = common.basic({"files": {"main.asm": src}, "args": ["main.asm", "-f1", "-oO.bin"] + opts}, ctx, v)
        if o is None:
            return None
        if o.code != status:
            v.fail("a clear failure has another status", "%r: %s instead of %s" % (src, o.code, status))
            return None
        known[status] = final(o)
    if None in known.values() or len(set(known.values())) < len(known):
        v.fail("two kinds of failure look alike", repr(known))
        return None
    _final = known
    return known


def learn(ctx, v):
    """{kind: (text before, text behind what is named)} from the clear-cut faults."""
    global _known
    if _known is not None:
        return _known
    known = {}
    for kind, src in CLEAR.items():
        c = {"files": {"main.asm": src}, "args": ["main.asm", "-f1", "-oO.bin"] + EXTRA.get(kind, [])}
        p = common.predict(c)
        want = [(n, t) for f, _, n, t in p.errors if f is not None] if p else []
        if not want or want[0][0] != kind:
            raise AssertionError("the fault of kind %d does not show it: %s" % (kind, p and p.errors))
        o = common.basic(c, ctx, v)
        if o is None:
            return None
        got = messages(o, 0)
        if len(got) != len(want):
            v.fail("a clear fault gives another number of messages", "%s: %s instead of %s" % (src, got, want))
            return None
        d = detail(kind, want[0][1])
        if d is None:
            known[kind] = (got[0], None)
            continue
        if not d:
            raise AssertionError("the fault of kind %d names nothing" % kind)
        if d not in got[0]:
            v.fail("a clear fault is not named in its message", "%r: %r does not contain %r" % (src, got[0], d))
            return None
        a, _, b = got[0].rpartition(d) if kind != 24 else (got[0].partition(d)[0], 0, "")
        known[kind] = (a, b)
    kinds = sorted(known)
    for a in kinds:
        for b in kinds:
            if a < b and known[a] == known[b] and M.ERRTEXT[a] != M.ERRTEXT[b]:
                v.fail("two kinds of error look alike", "%r and %r: %s" % (CLEAR[a], CLEAR[b], known[a]))
                return None
    _known = known
    return known


def statement(r, cpu):
    k = r.random()
    if cpu == "f8" or k < .15:
        v = r.choice([-1, 3, 5, 8, 9, 15, 16, 17, 255, 256, 300, 65535, 65536, 70000])
        if cpu == "f8":
            n = r.choice(["as", "asd", "ds", "ns", "xs", "ins", "outs", "lis", "lisl", "lisu", "sl", "sr", "ai", "ci", "in", "li", "ni",
                          "oi", "out", "xi", "dci", "jmp", "pi", "lr", "br", "bf", "bt", "bz", "bnc"])
            if n == "lr":
                return "lr %s,%s" % (r.choice(["a", "w", "3", "hu", "q", "dc0", "15", "k"]), r.choice(["a", "w", "3", "hu", "q", "dc0", "15", "k"]))
            if n in ("bf", "bt"):
                return "%s %d,.%+d" % (n, r.choice([0, 3, 7, 8, 15, 16]), r.choice([5, 300, -400]))
            if n[0] == "b":
                return "%s .%+d" % (n, r.choice([200, 300, -400, 5]))
            return "%s %d" % (n, v)
        return "%s %s" % (r.choice(["dc.b", "dc.w", "byte", "word", "dc", "ds"]), r.choice([str(v), "%d,1,2" % v, "3+", "(", "]", "`x", "1 2"]))
    if k < .25:
        return r.choice(["foobar", "ldq", "Xyz", ".nosuch", "lda2", "stop_it"]) + r.choice(["", " 1", " #$12,x", "\t$1234"])
    n = r.choice(isa.names(cpu))
    if k < .35:
        n += r.choice([".b", ".w", ".x", ".wx", ".by", ".r", ".l"])
    if k > .8:
        return "%s .%+d" % (n, r.choice([200, 300, -300, 129, 130, -127, 1000]))
    s = r.choice(isa_common.SHAPES)
    if r.random() < .4:
        s = s.replace("$12", r.choice(["$123", "-1", "300", "$10000", "$12345", "sy"])) if "$1234" not in s else s.replace("$1234", r.choice(["$12345", "70000", "-70000"]))
    return "%s %s" % (n, s)


def ending(r):
    """Runs that fail as a whole."""
    cpu = r.choice(list(isa.CPUS))
    head = "\tprocessor %s\n\torg $1000\n" % r.choice(isa.SPELL[cpu]) + "\tdc.b 1\n" * r.randrange(4)
    k = r.randrange(7)
    opts, files = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin"], {}
    if k == 0:
        t = r.choice(["\tdc.b nosuch\n", "\torg nosuch\n", "\tif nosuch\n\tendif\n", "a equ b\nb equ a\n\tdc.b a\n", "\tds nosuch\n", "\talign nosuch\n"])
    elif k == 1:
        n = r.randrange(3, 8)
        t = "".join("a%d equ a%d\n" % (j, j + 1) for j in range(n)) + "a%d equ 7\n\tdc.b a0\n" % n
        opts.append("-%s%d" % (r.choice("pP"), r.randrange(1, n)))
    elif k == 2:
        t = "\tdc.b 2 /* open\n" + "\tdc.b 3\n" * r.randrange(3)
        if r.random() < .3:
            files, t = {"x.h": t}, '\tinclude "x.h"\n'
    elif k == 3:
        n = r.choice(["again", "Mac_1", "rr"])
        t = "\tmac %s\n\tdc.b 1\n\t%s\n\tendm\n\t%s\n" % (n, r.choice([n, n.lower()]), n)
    elif k == 4:
        names = ["i%d.h" % j for j in range(r.randrange(1, 5))]
        files = {n: '\tdc.b 1\n\tinclude "%s"\n' % names[(j + 1) % len(names)] for j, n in enumerate(names)}
        t = '\tinclude "%s"\n' % names[0]
    elif k == 5:
        t = "\tdc.b 1\n"
        opts[1] = r.choice(["-onodir/x", "-onone/here/O.bin"])
    else:
        t = "\tdc.b 1\n"
        opts.append(r.choice(["-Z", "other.asm", "-x1", "+f3"]))
    if r.random() < .3:
        opts.append("-v%d" % r.randrange(5))
    status = {5: 2, 6: 1}.get(k)
    return {"files": {"main.asm": head + t, **files}, "args": ["main.asm"] + opts, "kind": "ending", "fmt": 0, "status": status}


def case(r, i, tier):
    k = r.random()
    if k < .3:
        return c25.case(r, i, tier)
    if k < .35:
        return ending(r)
    fmt = r.randrange(3)
    opts = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if fmt or r.random() < .5:
        opts.append("-E%d" % fmt)
    if r.random() < .25:
        opts.append("-S")           # reports more
    cpu = r.choice(list(isa.CPUS))
    lines = ["\tprocessor %s" % r.choice(isa.SPELL[cpu]), "\torg $%x" % r.choice([0x1000, 0x80, 0xf000]), "sy equ $1ff", "\tdc.b 1"]
    bad = []
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.random()
        if k < .05:
            bad.append("\t%s %s" % (r.choice(["dc.w", "word", "dc"] + (["jmp"] if cpu != "f8" else [])), r.choice(["$12345", "70000", "-65536", "3*$8000"])))
        elif k < .85:
            bad.append("\t" + statement(r, cpu))
        elif k < .88:
            n = r.choice(["lab", "Top", "a_b", "x9"]) + str(len(bad))
            bad += [n, "\tdc.b 1", n]
        elif k < .91:
            n = "eq%d" % len(bad)
            bad += ["%s\tequ\t1" % n, "%s\tequ\t2" % n]
        elif k < .94:
            n = "Mm%d" % len(bad)
            bad += ["\tmac %s" % n, "\tdc.b {1}", "\tendm"] + r.choice([["\t" + n], ["\tmac %s" % n.lower(), "\tnop", "\tendm", "\tdc.b 1+"]])
        elif k < .97:
            bad.append("\tprocessor %s" % r.choice(["6510", "z80", "f8", "6803", "foo"]))
        else:
            bad.append(r.choice(["\torg .+3,undefd", "\talign 0", "\trepeat -2\n\trepend", "\terr", "\thex 0q", "\tinclude \"no\"", "\tnop */"]))
    files = {}
    k = r.random()
    if k < .2:                      # all of it, or from some line on, in an included file
        k = r.randrange(len(bad))
        files = {"x.h": "\n".join(bad[k:]) + "\n"}
        bad = bad[:k] + ['\tinclude "x.h"']
    lines += bad
    if r.random() < .3:
        lines += ["\tdc.b later", "later equ 5"]
    return {"files": {"main.asm": "\n".join(lines) + "\n", **files}, "args": ["main.asm"] + opts, "kind": "statement", "fmt": fmt}


def judge(case, ctx, v):
    known = learn(ctx, v)
    if known is None:
        return
    ends = learn_final(ctx, v)
    if ends is None:
        return
    if case.get("status"):
        o = common.basic(case, ctx, v)
        if o is None:
            return
        if o.code != case["status"]:
            v.unsure("status differs")
        else:
            ended(o, ends, v)
        return
    p = common.predict(case, v)
    if p is None:
        return
    o = common.basic(case, ctx, v)
    if o is None:
        return
    v.count("runs " + case["kind"] + (" ok" if p.code == 0 else " refused"))
    if (o.code == 0) != (p.code == 0):
        v.unsure("status differs")              # a matter of other properties
        return
    if o.code == 0:
        return
    if o.code == p.code and not (p.errors and p.errors[-1][2] == 2):
        ended(o, ends, v)
    want = [(f, l, n, t) for f, l, n, t in p.errors if f is not None]
    got = messages(o, case["fmt"])
    if len(got) != len(want):
        v.unsure("number of messages differs")  # C25's
        return
    k = 0
    while k < len(want):
        # the messages about one line may come in any order
        j = k
        while j < len(want) and want[j][:2] == want[k][:2]:
            j += 1
        rest = got[k:j]
        for _, _, n, t in want[k:j]:
            if n not in known:
                continue
            v.count("messages of kind %d" % n)
            v.count("messages matched")
            bad = [wrong(known[n], n, t, g) for g in rest]
            if all(bad):
                v.fail(*bad[0])
                return
            del rest[bad.index(None)]
            for w in wanted(n, t) or [""]:
                v.saw(n, w[:40])
                v.count("offending texts found", bool(w))
        k = j


def ended(o, ends, v):
    w = final(o)
    if o.code in ends:
        v.count("endings with status %d" % o.code)
        v.saw("ending", o.code)
        if w != ends[o.code]:
            v.fail("failed run with the last words of another kind", "status %d: %r instead of %r" % (o.code, w, ends[o.code]))
    elif w in ends.values():
        v.fail("failed run with the last words of another kind", "status %d: %r" % (o.code, w))


def wrong(wording, n, t, g):
    """Why the message g is not one of kind n about what the model's t names; None if it is."""
    a, b = wording
    if b is None:
        return None if g == a else ("message with the wording of another kind", "%r instead of %r" % (g, a))
    if "\n" in t and n != 24:
        t, b = t.split("\n")[0] + b, ""         # the named text goes on in the next line
    if not g.startswith(a) or not g.endswith(b):
        return "message with the wording of another kind", "%r instead of %r...%r" % (g, a, b)
    s = squeeze(g[len(a):])
    for w in wanted(n, t):
        if squeeze(w) not in s:
            return "message does not name what is at fault", "%r does not contain %r" % (g, w)
    return None


def need(tier):
    return {"messages matched": 5000, "offending texts found": 4000, "runs statement refused": 3000,
            **{"endings with status %d" % n: 20 for n in FINAL}, "messages of kind 38": 20,
            **{"messages of kind %d" % n: 20 for n in (6, 10, 11, 12, 16, 20, 21, 24, 27, 33, 37)}}
