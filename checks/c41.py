import re
from gen import prog
from model import refasm
from . import common

ID = "C41"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "two runs of the same program with different names: image, status and symbol file compared"
NOTE = ("Random programs of all processors are assembled a second time with every label, symbol, local label and macro renamed: long "
        "and short names, prefixes of each other, names that differ only in case, that begin or end like registers, mnemonics, "
        "directives or numbers, or that are mnemonics; the image must be the same and the symbol file the same but for the names.")
RULE = "distinct (processor, kind of new names, kind of thing renamed, number of symbols, exit status) pairs of runs compared"
ASSUME = ["a name is made of letters, digits, _ . and @ and begins with a letter or _; it is not a register of the processor"]
NO_MINIMISE = True

TOKEN = re.compile(r"""\"[^\"\n]*\"|'.|;[^\n]*|[0-9]+\$|[0-9$%][A-Za-z0-9_.@]*|[A-Za-z_.@][A-Za-z0-9_.@]*""")
REGS = ["x", "y", "sp", "a", "b", "d", "s", "X", "Y", "SP", "A", "r0", "r15", "k", "q", "dc", "dc0", "is", "isl", "hu", "hl", "h", "w", "j", "ku", "kl", "qu", "ql", "p", "p0", "pc0", "pc1", "n", "i", "I",
        "S", "D", "K", "Q", "J", "W", "H"]
WORDS = ["lda", "nop", "org", "dc", "equ", "if", "endif", "mac", "endm", "processor", "set", "echo", "repeat", "repend", "include", "ds", "eqm", "bne", "jmp", "LDA", "Org",
         "seg", "end", "list", "else", "byte", "word", "align", "rorg", "rend", "err", "hex", "incbin", "subroutine", "mexit", "ifconst", "dv", "setstr", "clr", "inc", "ldaa", "brset", "li", "as"]
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
KINDS = ["short", "long", "huge", "prefix", "case", "reg", "word", "like", "tail", "same", "number", "twins", "giant", "mixed"]


def cases(tier):
    return 12000 if tier == "quick" else 100000


def fresh(r, kind, n, used):
    """A new name for the n-th thing."""
    for _ in range(1000):
        k = r.choice(KINDS[:-1]) if kind == "mixed" else kind
        if k == "short":
            s = "".join(r.choice(ALPHA) for _ in range(r.choice([1, 2, 2, 3])))
        elif k == "long":
            s = r.choice(ALPHA) + "".join(r.choice(ALPHA + "0123456789.@") for _ in range(r.randrange(5, 40)))
        elif k == "huge":
            s = r.choice(ALPHA) * r.choice([63, 64, 127, 128, 200, 250]) + str(n)
        elif k == "prefix":
            s = "abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz"[:1 + n] + ("" if n < 50 else str(n))
        elif k == "case":
            s = "".join(r.choice([c, c.upper()]) for c in "label_name")
        elif k == "reg":
            s = r.choice(REGS) + r.choice(["_", ".", "@", "1", "z", "x", "y", "p", "_sp", ".x", "_y", "a", "9"]) + r.choice(["", str(n)])
        elif k == "word":
            s = r.choice(WORDS)
        elif k == "like":
            s = r.choice(WORDS) + r.choice([".b", ".w", "_", "1", "x", ".", ".x", "s"]) + r.choice(["", str(n)])
        elif k == "tail":
            s = "%s%d%s" % (r.choice(ALPHA), n, r.choice([".x", "_y", ".sp", "x", "y", "sp", ".b", ".w", "..", ".", "@", "_", ".d", "d", "h", "b"]))
        elif k == "twins":      # the same sums of the characters, so that tables keep them together
            s = "a" * r.choice([1, 5, 20, 70, 200]) + "".join(r.choice(["aca", "bab"]) for _ in range(6))
        elif k == "giant":      # a few of them only, for the lines to hold them
            s = "%s%d%s" % ("G" * r.choice([254, 256, 260, 300, 400, 512, 600]), n, r.choice("abc")) if n % 5 == 0 else "g%d" % n
        elif k == "same":
            s = "q" * r.choice([7, 8, 15, 16, 23, 24, 31]) + "%04d" % n
            s = s[-r.choice([8, 16, 24]):]
        else:
            s = r.choice(["e%d", "b%d", "x%d", "f%x", "d%d", "_%d", "a%x", "b0%d", "E%dE%d"[:3]]) % n
        if k in ("long", "tail", "number") and r.random() < .1:
            s = "@" + s
        if s not in used and "." + s not in used and s.lower() not in REGS and s[0] in ALPHA + "@":
            return s
    return "zz_%d_%d" % (n, len(used))


def plan(r, names, dollars, kind):
    used, low = set(REGS) | {"ax", "xs"}, set()
    m = {}
    banned = words()
    for old in dollars:
        s = None
        while s is None or s in used:
            s = "%d$" % r.randrange(10 ** (1 if kind == "short" else r.randrange(1, 15))) if kind != "prefix" else "1" * r.randrange(1, 40) + "$"
        used.add(s)
        m[old] = s
    for n, (old, base) in enumerate(names):
        if base in ("dy", "sn", "sv"):
            continue
        if base == "mac":
            for _ in range(300):
                s = re.sub(r"[^A-Za-z0-9_]", "", fresh(r, kind, n, used))
                if s and s[0] in ALPHA and s.lower() not in low and s.lower() not in banned:
                    break
            else:
                s = "zm_%d" % n
            low.add(s.lower())
            m[old.upper()] = s
        else:
            s = fresh(r, kind, n, used)
            if old.startswith("."):
                s = r.choice(["."] * 8 + ["..", "..."]) + s
        used.add(s)
        m[old] = s
    return m


def words(cache=[]):
    """Mnemonics and directives of all processors; a macro cannot have one of these names."""
    if not cache:
        cache.append({x.lower() for x in WORDS} | set(refasm.DIRECTIVES) | {n for t in refasm.tables().values() for n in t} | {"res", "fdb", "fcb", "fcc", "rmb"})
    return cache[0]


def rename(text, m):
    return TOKEN.sub(lambda t: m.get(t.group(), t.group()), text)


def case(r, i, tier):
    kind = KINDS[i % len(KINDS)]
    p = prog.Prog(r, size=r.choice([4, 10, 25, 50]), errors=0, fwd=r.choice([0, .2, .4]), weights={"setstr": 0, "setsym": 0, "dyn": 0})
    files = p.build()
    m = plan(r, p.names, sorted(set(re.findall(r"^([0-9]+\$)", files["main.asm"], re.M)))[:8], kind)
    macros = [m[n] for n, b in p.names if b == "mac" and n in m]
    twin = {n: rename(t, m) if n.endswith((".asm", ".h")) else t for n, t in files.items()}
    lines = [l for n, t in twin.items() if n.endswith((".asm", ".h")) for l in t.split("\n")]
    calls = max([len(l) for l in lines if any(x in l for x in macros)] or [0])
    if any(len(l) + l.count("{") * calls > 1000 for l in lines):        # also when the arguments have been filled in
        return None
    return {"files": files, "twin": twin, "map": m, "kind": kind, "cpu": p.cpu, "args": ["main.asm", "-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym", "-T2"]}


def table(text, m):
    ent = common.symbols(text or b"")
    if ent is None:
        return None
    res = []
    for n, val, unk, st, eqm, ref, se, txt in ent:
        k = re.match(r"\d+(\..*)", n) or re.match(r"\d+\$(\d+\$)", n)
        if n in m:
            n = m[n]
        elif k and k.group(1) in m:
            n = n[:k.start(1)] + m[k.group(1)]
        res.append((n, val, unk, st, eqm, ref, se, None if eqm else txt))
    return sorted(res, key=str)


def judge(case, ctx, v):
    a = common.basic(case, ctx, v)
    if a is None:
        return
    b = common.basic({"files": case["twin"], "args": case["args"]}, ctx, v)
    if b is None:
        return
    v.saw(case["cpu"], case["kind"], a.code, min(len(case["map"]), 30))
    v.count("status %d" % a.code)
    if a.code != b.code:
        v.fail("other names give another status", "%s and %s: %s" % (a.code, b.code, ((b if b.code else a).out or b"")[-400:].decode("latin-1")))
        return
    if a.code:
        return
    v.count("pairs compared")
    v.count("names replaced", len(case["map"]))
    if a.file("O.bin") != b.file("O.bin"):
        v.fail("other names give another image", "at byte %d" % common.diffpos(a.file("O.bin") or b"", b.file("O.bin") or b""))
        return
    x, y = table(a.file("O.sym"), case["map"]), table(b.file("O.sym"), {})
    if x is None or y is None:
        v.fail("symbol file malformed")
    elif x != y:
        k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
        v.fail("other names give another symbol file", "%s, expected %s" % (y[k:k + 1], x[k:k + 1]))
    else:
        v.count("symbols compared", len(x))


def need(tier):
    return {"pairs compared": 6000, "symbols compared": 50000}
