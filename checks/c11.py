from gen import prog
from . import common

ID = "C11"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "expression values observed in dump and output, compared with direct evaluation of the generated tree and a model"
NOTE = ("Expression trees are generated together with their value, written with the brackets the documented precedences "
        "require and in every number notation, and used in EQU, SET, EQM, -D, data, IF, REPEAT, DS, ORG, operands and "
        "macro arguments; broken expressions are judged by the reference assembler.")
RULE = "distinct (operator, operator above it, side) and operator/operand-class pairs and places whose value was observed"
ASSUME = common.ASSUME + ["results outside the signed 64-bit range are not generated"]

PRI = {"*": 20, "/": 20, "%": 20, "+": 19, "-": 19, "<<": 18, ">>": 18, "<": 17, ">": 17, "<=": 17, ">=": 17,
       "==": 16, "=": 16, "!=": 16, "&": 15, "^": 14, "|": 13, "&&": 12, "||": 11, "?": 10}
UN = ["-", "~", "!", "<", ">"]
NO_MINIMISE = True
LO, HI = -(1 << 63), (1 << 63) - 1


class Bad(Exception):
    pass


def binop(op, a, b):
    if op == "*":
        v = a * b
    elif op == "/":
        if b == 0:
            raise Bad
        v = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    elif op == "%":
        if b == 0:
            raise Bad
        v = abs(a) % abs(b) * (-1 if a < 0 else 1)
    elif op == "+":
        v = a + b
    elif op == "-":
        v = a - b
    elif op == "<<":
        if not 0 <= b <= 63 or a < 0:
            raise Bad
        v = a << b
    elif op == ">>":
        if not 0 <= b <= 63:
            raise Bad
        v = a >> b
    elif op == "<":
        v = a < b
    elif op == ">":
        v = a > b
    elif op == "<=":
        v = a <= b
    elif op == ">=":
        v = a >= b
    elif op in ("==", "="):
        v = a == b
    elif op == "!=":
        v = a != b
    elif op == "&":
        v = a & b
    elif op == "^":
        v = a ^ b
    elif op == "|":
        v = a | b
    elif op == "&&":
        v = a != 0 and b != 0
    elif op == "||":
        v = a != 0 or b != 0
    elif op == "?":
        v = b if a else 0
    v = int(v)
    if not LO <= v <= HI:
        raise Bad
    return v


def unop(op, a):
    v = {"-": -a, "~": ~a, "!": int(a == 0), "<": a & 0xff, ">": (a >> 8) & 0xff}[op]
    if not LO <= v <= HI:
        raise Bad
    return v


INTEREST = [0, 1, 2, 3, 7, 8, 10, 127, 128, 255, 256, 257, 1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff,
            0x80000000, 0xffffffff, 0x100000000, (1 << 40) + 5, (1 << 62), HI]


class Gen:
    def __init__(self, r):
        self.r = r
        self.pre, self.post = [], []
        self.keys = set()
        self.n = 0

    def leaf(self):
        r = self.r
        k = r.random()
        v = r.choice(INTEREST) if k < .5 else r.randrange(20) if k < .8 else r.randrange(1 << 32)
        k = r.random()
        if k < .1:
            c = r.choice("aZ09 ~@<-+*(#") if r.random() < .7 else "q"
            if c != " ":
                self.keys.add("char")
                return ord(c), "'" + c
        if k < .16:
            s = "".join(r.choice("abcXYZ 09+-*,()") for _ in range(r.randrange(1, 5)))
            self.keys.add("string")
            return int.from_bytes(s.encode(), "big"), '"%s"' % s
        if k < .3:
            self.n += 1
            n = r.choice(["e%d", "_e%d", "E.%d"]) % self.n
            later = r.random() < .4
            (self.post if later else self.pre).append("%s equ %d" % (n, v))
            self.keys.add("later" if later else "earlier")
            return v, n
        if k < .34:
            self.n += 1
            n = "m%d" % self.n
            self.pre.append("%s eqm %d" % (n, v))
            return v, n
        t = prog.number(r, v)
        self.keys.add("num " + (t[0] if not t[0].isdigit() else t[:2] if t[:2] == "0x" else "0" if t[0] == "0" else "d"))
        return v, t

    def tree(self, depth):
        """(value, text, priority)"""
        r = self.r
        if depth <= 0 or r.random() < .12:
            v, t = self.leaf()
            return v, t, 1000
        for _ in range(30):
            try:
                if r.random() < .22:
                    op = r.choice(UN)
                    v, t, p = self.tree(depth - 1)
                    w = unop(op, v)
                    if p < 128:
                        t = self.bracket(t)
                    self.keys.add("un %s %s" % (op, "-" if v < 0 else "0" if v == 0 else "+"))
                    return w, op + r.choice(["", "", " "]) + t, 128
                op = r.choice(list(PRI))
                if op in ("<<", ">>") and r.random() < .9:
                    a = self.tree(depth - 1)
                    n = r.choice([0, 1, 4, 8, 31, 32, 33, 62, 63])
                    b = (n, str(n), 1000)
                else:
                    a, b = self.tree(depth - 1), self.tree(r.randrange(depth))
                v = binop(op, a[0], b[0])
                p = PRI[op]
                at, bt = a[1], b[1]
                if a[2] < p or r.random() < .08:
                    at = self.bracket(at)
                if b[2] <= p or r.random() < .08:
                    bt = self.bracket(bt)
                sp = r.choice(["", "", " "])
                if op == "%":
                    sp = " "
                # an operator must not run into the next one or into a unary one
                if op in ("<", ">", "=", "!=", "&", "|") and bt[0] in "<>=&|!":
                    sp = " "
                if bt[0] == "*" or at.endswith("'"):
                    bt = self.bracket(bt)
                self.keys.add("%s %s%s %s%s" % (op, "-" if a[0] < 0 else "+", "L" if abs(a[0]) >> 32 else "s",
                                                "-" if b[0] < 0 else "+", "L" if abs(b[0]) >> 32 else "s"))
                self.keys.add("%s left %d" % (op, a[2]))
                self.keys.add("%s right %d" % (op, b[2]))
                return v, at + sp + op + sp + bt, p
            except Bad:
                continue
        v, t = self.leaf()
        return v, t, 1000

    def bracket(self, t):
        return "[" + t + "]" if self.plain or self.r.random() < .6 else "(" + t + ")"

    plain = False       # only square brackets


def cases(tier):
    return 18000 if tier == "quick" else 150000


BROKEN = ["", "1+", "+", "*2", "1 2", "1 +* 2", "[1", "1]", "[1+2", "(1", "1)", "[]", "()", "1,,2", ",", "1,", "$", "%", "0x", "'", '"',
          '"abc', "1//2", "1/0", "5 % 0", "1/[3-3]", "~", "-", "!", "<", "1<<", "1 $2", "a b", "@", "1@", "`", "#1", "1#2", "1=>2", "[1]2",
          "2[3]", "1 & & 2", "1 | | 2", "1 & ", "[[1]", "[1]]", "\\", "1 ! 2", "~~", "{", "}", "{1}", "undefd", "undefd+1", "1 ? ", "? 2", "1 1", "'a'",
          "''", '"a""b"', "1.5", "09", "1e5", "$g", "%2", "- -", "--5", "~-5", "!!3", "-~3", "<>5", ">-1", "- - 5", "1--2", "1 - -2", "1+-2", "2*-3",
          "2*~3", "1 + + 2", "2 ** 3", "10 % %11", "%101%3", "%101 % 3", "* * *", ". * .", ".+*", "7 <= 8", "7 =< 8", "7 >= 8", "7 <> 8", "1 == 1",
          "1 = 1", "3 !=2", "3 != 3", "5&&0", "0||7", "1 && 2 || 0", "[2+3]d", "[-5]d", "1?2", "0?2", "1?2?3",
          "018", "08", "0178", "078+1", "0778", "0X12", "0xg", "0x1g", "0x1G", "%12", "%120", "%1012", "%3", "12a", "1f", "$1g", "$1G", "$ff0G", "00", "007", "0170", "0", "000",
          "$0", "%0", "0x0", "0xFf", "$aF", "$7fffffffffffffff", "$8000000000000000", "$ffffffffffffffff", "9223372036854775807", "0777777777777777777777",
          "%" + "1" * 63, "1:2", "1_0", "a.b", "1.", ".1", "..1", "1..", "5$", "$$5", "%%1", "5$+1"]


def case(r, i, tier):
    g = Gen(r)
    if i < len(BROKEN) * 4 or r.random() < .12:
        if i < len(BROKEN) * 4:
            e = BROKEN[i // 4]
            site = i % 4
        else:
            e = g.tree(3)[1]
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(len(e) + 1)
                e = r.choice([e[:k] + e[k + 1:], e[:k] + r.choice("+-*/%<>=!&|^?~[]()$'\",.1a ") + e[k:], e[:k]])
            site = r.randrange(5)
        if "/*" in e or "*/" in e or ";" in e:
            e = "1+2"
        line = ["q equ %s", "\tdc.l %s", "\tif %s\n\tdc 1\n\tendif", "q set %s", "\tds [%s]&7"][site] % e
        if site == 4 and len(e) > 40:
            line = "\tdc.w %s" % e
        text = "\tprocessor 6502\n\torg $1000\n%s\n%s\n\tdc.b 1\n%s\n" % ("\n".join(g.pre), line, "\n".join(g.post))
        return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"], "kind": "broken",
                "keys": [site, e]}
    if r.random() < .06:
        # long chains and deep brackets, up to the limits
        k = r.choice([2, 10, 20, 29, 30, 31, 32, 33, 40, 62, 63, 64, 65, 70, 100])
        e = r.choice([lambda: "[" * k + "1" + "]" * k, lambda: "+".join(["1"] * k), lambda: "-" * k + "5",
                      lambda: "".join("%d+[" % j for j in range(k)) + "1" + "]" * k, lambda: "~" * k + "0",
                      lambda: "1" + "|2^3&4" * k, lambda: "!" * k + "3", lambda: "*".join(["1"] * k),
                      lambda: "1+2*[" * k + "3" + "]" * k, lambda: "0||1&&" * k + "1"])()
        e = e.replace("-" * k, "-[" * k if r.random() < .3 else "-" * k)
        if e.count("[") > e.count("]"):
            e += "]" * (e.count("[") - e.count("]"))
        text = "\tprocessor 6502\n\torg $1000\nq equ %s\n\tdc.l %s\n" % (e, e)
        return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"], "kind": "deep",
                "keys": [k, e[:3]]}
    lines, want, image, opts = [], {}, b"", []
    for j in range(r.choice([1, 2, 4, 8])):
        site = r.choice(["equ", "equ", "set", "=", "eqm", "dc.l", "dc.w", "dc.b", "if", "repeat", "ds", "imm", "mac", "org",
                         "-D", "-M", "dyn", "ifelse", "align", "echo", "text"])
        g.plain = site in ("imm", "echo", "mac")
        v, t, p = g.tree(r.choice([1, 2, 2, 3, 3, 4]))
        if len(t) > 300 or "/*" in t or "*/" in t or "//" in t:
            continue
        n = "q%d" % j
        t0 = t
        g.keys.add("site " + site)
        fwd = any(s.split()[0] in t for s in g.post)
        if site in ("equ", "set", "="):
            lines.append("%s %s %s" % (n, site, t))
            want[n] = v
            if fwd:             # only a symbol that is used makes its value be looked for again
                lines.append("\tdc.b <%s" % n)
                image += bytes([v & 0xff])
        elif site == "eqm":
            lines += ["%s eqm %s" % (n, t), "%sv equ %s" % (n, n)]
            want[n + "v"] = v
            if fwd:
                lines.append("\tdc.b <%sv" % n)
                image += bytes([v & 0xff])
        elif site == "dc.l":
            lines.append("\tdc.l %s" % t)
            if t[0] == '"':         # a string is stored character by character
                lines[-1] = "\tdc.l 0+[%s]" % t
            image += (v & 0xffffffff).to_bytes(4, "little")
        elif site == "dc.w":
            lines.append("\tdc.w 0+[%s]" % t)
            image += (v & 0xffff).to_bytes(2, "little")
        elif site == "dc.b":
            o = r.choice("<>")
            lines.append("\tdc.b %s[%s]" % (o, t))
            image += bytes([unop(o, v)])
        elif site == "if" and t[0] != '"':
            lines += ["\tif 0+[%s]" % t, "\tdc.b 1", "\tendif"]
            image += b"\1" if v else b""
        elif site == "ifelse":
            lines += ["\tif 0+[%s]" % t, "\tdc.b 1", "\telse", "\tdc.b 2", "\tendif"]
            image += b"\1" if v else b"\2"
        elif site == "repeat":
            if fwd:
                continue
            lines += ["\trepeat [%s]&3" % t, "\tdc.b 7", "\trepend"]
            image += b"\7" * (v & 3)
        elif site == "ds":
            lines.append("\tds [%s]&7,$e1" % t)
            image += b"\xe1" * (v & 7)
        elif site == "text":
            lines.append("\tdc.b [%s]d" % t)
            image += str(v).encode()
        elif site == "align":
            lines.append("\talign 1+[[%s]&0],$ff" % t)
        elif site == "org":
            lines.append("\torg .+[[%s]&15],$77" % t)
            lines.append("\tdc.b 9")
            image += b"\x77" * (v & 15) + b"\x09"
        elif site == "imm":
            lines.append("\tlda #<[%s]" % t)
            image += bytes([0xa9, v & 0xff])
        elif site == "mac":
            if "," in t or "{" in t or t[-1] in "'\\":
                continue
            lines += ["\tmac mq%d" % j, "%s equ {1}" % n, "\tendm", "\tmq%d %s" % (j, t), "\tdc.b <%s" % n]
            want[n] = v
            image += bytes([v & 0xff])
        elif site in ("-D", "-M"):
            if r.random() < .05:        # a blank need not be written at the end
                v, t = r.choice([(32, "'"), (33, "1+'")])
            if any(c.isalpha() and s.split()[0] in t for s in g.pre + g.post for c in "a"):
                continue
            opts.append("%s%s=%s" % (site, n, t))
            lines.append("%sv equ %s" % (n, n))
            want[n + "v"] = v
        elif site == "dyn":
            if fwd or "," in t or '"' in t or " " in t or "=" in t:
                continue
            lines.append("dl%d_,%s" % (j, t))
            want["dl%d_%d" % (j, v)] = None
        elif site == "echo":
            lines.append("\techo [%s]" % t)
        else:
            continue
    text = "\tprocessor 6502\n\torg $1000\n\tdc.b $aa\n%s\n%s\n\tdc.b $55\n%s\n" % ("\n".join(g.pre), "\n".join(lines), "\n".join(g.post))
    return {"files": {"main.asm": text}, "args": ["main.asm", "-f3", "-oO.bin", "-sO.sym"] + opts, "kind": "tree",
            "keys": sorted(g.keys), "want": want, "image": (b"\xaa" + image + b"\x55").hex()}


def judge(case, ctx, v):
    o, p = common.agree(case, ctx, v)
    if o is None and v.kind == "held":
        if case["kind"] != "tree":
            return
        o = common.basic(case, ctx, v)          # outside the model, but the tree has a value
        if o is None:
            return
    if o is None or v.kind != "held":
        return
    v.count("kind " + case["kind"] + (" ok" if o.code == 0 else " refused"))
    if p is not None and p.code == 0:
        common.check_symbols(o, p, v, values_only=True)
    if case["kind"] != "tree":
        v.saw(case["kind"], *case["keys"])
        return
    for k in case["keys"]:
        v.saw(k)
    if o.code:
        v.fail("valid expression refused", (o.out or b"").decode("latin-1")[-300:])
        return
    got = common.symbols(o.file("O.sym") or b"")
    if got is None:
        v.fail("symbol file malformed")
        return
    vals = {g[0]: g[1] for g in got}
    for n, w in case["want"].items():
        v.count("values checked")
        if w is None and n in vals:
            continue
        if w is None:
            v.fail("label argument has another value", "%s is missing" % n)
            return
        if vals.get(n) != w & 0xffffffffffffffff:
            v.fail("expression has another value", "%s is %s instead of %x" % (
                n, "%x" % vals[n] if n in vals else "missing", w & 0xffffffffffffffff))
            return
    img = o.file("O.bin")
    if img is None or img.hex() != case["image"]:
        v.fail("expression gives other bytes", "%s instead of %s" % (common.clip(img), case["image"][:96]))


def need(tier):
    return {"values checked": 4000, "kind tree ok": 5000, "kind broken refused": 300, "kind deep ok": 100, "kind deep refused": 20}
