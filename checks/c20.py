from gen import isa, prog
from . import common

ID = "C20"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "twin programs: local labels replaced by unique global names must give the same bytes; reference model"
NOTE = ("Dot and dollar labels with the same few names in many SUBROUTINE sections, stretches, macro invocations, "
        "repeats and includes, referenced forwards and backwards, are renamed to unique global names by the generator; "
        "both programs must give the same bytes. References out of scope must fail.")
RULE = "distinct (scope kinds, nesting, name reuse) arrangements whose references resolved as in the renamed program"
ASSUME = common.ASSUME
NO_MINIMISE = True
DOTS = [".a", ".loop", ".x1", "._", ".LOOP", ".1", ".12", ".loop_that_has_a_long_name", ".@"]
DOLS = ["1$", "10$", "2$", "99$", "1000$", "01$", "4294967297$"]


def cases(tier):
    return 14000 if tier == "quick" else 100000


class G:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.keys = set()
        self.macros = []            # (name, items)

    def seq(self, size, level):
        """Items: ('def', kind, name, scope) ('ref', ...) ('sub', label) ('lab', name) ('call', macro) ('fill', n)."""
        r = self.r
        slots = [[] for _ in range(size)]
        sub = sorted(r.sample(range(1, size), min(size - 1, r.choice([0, 1, 2, 3]))))
        lab = sorted(r.sample(range(1, size), min(size - 1, r.choice([0, 1, 3, 5]))))
        withlab = [k for k in sub if r.random() < .4]
        for k in sub:
            slots[k].insert(0, ("sub", "S" if k in withlab else None))
        for k in lab:
            slots[k].append(("lab",))
        dolcuts = sorted(set(lab) | set(withlab))

        def place(names, cuts, tag, inclusive):
            bounds = [0] + cuts + [size]
            for j in range(len(bounds) - 1):
                lo, hi = bounds[j], bounds[j + 1]
                if hi <= lo:
                    continue
                for nm in r.sample(names, r.randrange(0, 6)):
                    d = r.randrange(lo, hi)
                    slots[d].append(("def", nm, (tag, j)))
                    for _ in range(r.randrange(1, 4)):
                        slots[r.randrange(lo, hi)].append(("ref", nm, (tag, j)))
        place(DOTS, sub, "dot", True)
        place(DOLS, dolcuts, "dol", True)
        out = []
        for k, s in enumerate(slots):
            cut = [x for x in s if x[0] in ("sub", "lab")]
            rest = [x for x in s if x[0] not in ("sub", "lab")]
            r.shuffle(rest)
            out += cut + rest
            if r.random() < .3:
                out.append(("fill", r.randrange(1, 5)))
            if self.macros and r.random() < .2 and level < 3:
                out.append(("call", r.randrange(len(self.macros)) if level == 0 else None))
        return out

    def text(self, items, macro):
        """Original form."""
        out = []
        for k, x in enumerate(items):
            if x[0] == "def":
                out.append(x[1] + (":" if k % 3 == 0 else ""))
            elif x[0] == "ref":
                out.append("\tdc.w\t%s" % x[1])
            elif x[0] == "sub":
                out.append(("" if x[1] is None else self.name(x[1], macro, k)) + "\tSUBROUTINE")
            elif x[0] == "lab":
                out.append(self.name("G", macro, k))
            elif x[0] == "fill":
                out.append("\tds\t%d,$ee" % x[1])
            elif x[0] == "call":
                out.append("\t%s" % self.macros[x[1]][0])
        return out

    def name(self, p, macro, k):
        # ordinary labels are global: in a macro they need a name per call
        return "%s%d" % (p, k) if macro is None else "%s{1}_%d" % (p, k)

    def twin(self, items, inst):
        out = []
        for k, x in enumerate(items):
            if x[0] in ("def", "ref"):
                n = "u%s_%s%d_%d" % (inst, x[2][0], x[2][1], (DOTS + DOLS).index(x[1]))
                out.append(n if x[0] == "def" else "\tdc.w\t" + n)
            elif x[0] == "fill":
                out.append("\tds\t%d,$ee" % x[1])
            elif x[0] == "call":
                self.n += 1
                out += self.twin(self.macros[x[1]][1], "m%d" % self.n)
        return out


def case(r, i, tier):
    k0 = r.random()
    if k0 < .1:
        w = dict(prog.DEFAULT, local=25, dollar=20, sub=12, macro=8, call=15)
        p = prog.Prog(r, size=r.choice([8, 20, 40]), weights=w)
        return {"files": p.build(), "args": ["main.asm", "-f3", "-oO.bin"], "kind": "random", "keys": []}
    if k0 < .25:
        # out of scope, and case sensitivity
        t = r.choice([
            ".a\n\tsubroutine\n\tdc.w .a\n", "\tdc.w .a\n\tsubroutine\n.a\n", "1$\nlab\n\tdc.w 1$\n", "\tdc.w 1$\nlab\n1$\n",
            "\tmac mm\n.a\n1$\n\tendm\n\tmm\n\tdc.w .a\n", "\tmac mm\n1$\n\tendm\n\tmm\n\tdc.w 1$\n", "\tmac mm\n\tdc.w .a\n\tendm\n.a\n\tmm\n",
            "\tmac mm\n\tdc.w 1$\n\tendm\nl\n1$\n\tmm\n", "Lab\n\tdc.w lab\n", "lab\n\tdc.w LAB\n", "lab\nLab\n\tdc.w lab,Lab\n",
            ".a\n.A\n\tdc.w .a,.A\n", "a\n.a\n\tdc.w a,.a\n", "1$\n.b\n\tdc.w 1$\n", ".a\n1$\nx1\n1$\n\tdc.w .a,1$\n", ".a\n.a\n", "l\n\tdc 1\nl\n",
            "1$\n\tdc 1\n1$\n", "\tmac mm\n.a\n\tendm\n.a\n\tmm\n\tmm\n\tdc.w .a\n", "l\n1$\n\tmac mm\n1$\n\tdc.w 1$\n\tendm\n\tmm\n\tdc.w 1$\n",
            "\tmac mi\n.a\n\tdc.w .a\n\tendm\n\tmac mo\n.a\n\tmi\n\tdc.w .a\n\tendm\n\tmo\n\tmo\n", "sub1\tsubroutine\n.a\n\tdc.w .a\nsub2\tsubroutine\n.a\n\tdc.w .a\n",
            "\tmac mm\n\tsubroutine\n.a\n\tendm\n.a\n\tds 3\n\tmm\n\tdc.w .a\n", "\tmac mm\nm{1}\n1$\n\tendm\nq\n1$\n\tds 2\n\tmm 5\n\tdc.w 1$\n",
            "q equ 5\n1$\n\tdc 1\nq2 equ 6\n\tdc.w 1$\n", "l1\n1$\n\tdc 1\nq2 set 6\n\tdc.w 1$\n", ".a equ 7\n\tsubroutine\n.a equ 8\n\tdc.b .a\n",
            ".a set 7\n\tsubroutine\n\tdc.b .a\n", "\trepeat 2\nl,.\n1$\n\tdc.w 1$\n\trepend\n"])
        fill = "".join("\tdc.b %d\n" % r.randrange(256) for _ in range(r.randrange(3)))
        return {"files": {"main.asm": "\tprocessor 6502\n\torg $1000\n\tdc.b 1\n" + fill + t + "\tdc.b 2\n"},
                "args": ["main.asm", "-f3", "-oO.bin"], "kind": "scope", "keys": [t]}
    g = G(r)
    for j in range(r.randrange(0, 4)):
        items = g.seq(r.randrange(2, 6), 1)
        items = [x for x in items if x[0] != "call"]
        # in a macro only labels that need no argument
        items = [("sub", None) if x[0] == "sub" else x for x in items if x[0] != "lab"]
        # dropping ordinary labels joins stretches: keep one definition per name and stretch
        seen, out = set(), []
        for x in items:
            if x[0] in ("def", "ref"):
                if x[2][0] == "dol":
                    x = (x[0], x[1], ("dol", 0))
                if x[0] == "def":
                    if (x[1], x[2]) in seen:
                        continue
                    seen.add((x[1], x[2]))
            out.append(x)
        if g.macros and r.random() < .5:
            out.insert(r.randrange(len(out) + 1), ("call", r.randrange(len(g.macros))))
        g.macros.append(("mm%d" % j, out))
    items = g.seq(r.choice([3, 6, 12]), 0)
    head = ["\tprocessor 6502", "\torg $1000", "\tdc.b $aa"]
    a = []
    for n, body in g.macros:
        a += ["\tmac\t%s" % n] + g.text(body, n) + ["\tendm"]
    main = g.text(items, None)
    files = {}
    if r.random() < .25 and len(main) > 4:
        x, y = sorted(r.sample(range(len(main) + 1), 2))
        files["in.h"] = "\n".join(main[x:y]) + "\n"
        main[x:y] = ['\tinclude "in.h"']
    files["main.asm"] = "\n".join(head + a + main) + "\n"
    b = g.twin(items, "t")
    return {"files": files, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "twin",
            "twin": "\n".join(head + b) + "\n",
            "keys": [len(g.macros), sum(x[0] == "sub" for x in items), sum(x[0] == "lab" for x in items),
                     sum(x[0] == "call" for x in items), min(sum(x[0] == "def" for x in items), 20)]}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None or v.kind != "held":
        return
    v.count("kind " + case["kind"] + (" ok" if o.code == 0 else " refused"))
    v.saw(case["kind"], *case["keys"], p.code)
    if case["kind"] != "twin":
        return
    q = common.basic({"files": {"main.asm": case["twin"]}, "args": case["args"]}, ctx, v)
    if q is None:
        return
    if o.code or q.code:
        v.fail("program with local labels refused" if o.code else "program with global labels refused",
               ((o if o.code else q).out or b"")[-300:].decode("latin-1"))
        return
    a, b = o.file("O.bin") or b"", q.file("O.bin") or b""
    v.count("reference bytes compared", len(a))
    if a != b:
        k = common.diffpos(a, b)
        v.fail("local label resolved to another definition", "at %d: %s, renamed %s" % (k, a[k:k + 8].hex(), b[k:k + 8].hex()))


def need(tier):
    return {"reference bytes compared": 50000, "kind twin ok": 3000, "kind scope refused": 200, "kind scope ok": 200}
