import re
from gen import isa, prog
from . import common

ID = "C38"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "monitor on the console and the symbol file of failed runs; expected sets from the generator and the model"
NOTE = ("Programs use symbols nobody defines in instructions, data, conditions, equates, local names, macros and included files, "
        "beside symbols that have a value; the printed list must hold exactly the symbols without a value, and the symbol file "
        "every symbol with its state, as after errors that do not break off the run.")
RULE = "distinct (way of using the undefined symbol, place, number of passes, number of symbols listed, exit status) compared"
ASSUME = common.ASSUME
NO_MINIMISE = True

USES = {"dc": "\tdc.b %s", "word": "\tdc.w %s+1", "lda": "\tlda %s", "imm": "\tlda #<%s", "ds": "\tds %s", "align": "\talign %s", "rep": "\trepeat %s\n\tnop\n\trepend",
        "if": "\tif %s\n\tnop\n\tendif", "bne": "\tbne %s", "echo": "\techo %s\n\tdc.b %s", "sum": "\tdc.l [%s*2]+%s", "equ": "e_%s equ %s\n\tdc.b e_%s",
        "const": "\tifconst %s\n\tnop\n\tendif\n\tdc.b %s", "eqm": "m_%s eqm %s+1\n\tdc.b m_%s", "dv": "v_%s eqm ..+%s\n\tdv v_%s 1,2", "fwd": "\tdc.w e_%s\ne_%s equ %s"}


def cases(tier):
    return 9000 if tier == "quick" else 90000


def case(r, i, tier):
    mode = r.randrange(3)
    a = ["-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if r.random() < .8:
        a += ["-sO.sym"] + (["-T%d" % mode] if r.random() < .5 else [])
    if r.random() < .2:
        a.append(r.choice(["-p%d", "-P%d"]) % r.choice([2, 3, 9, 20]))
    if r.random() < .2:
        a.append(r.choice(["-Dcmd=5", "-Mcmd=u_none+1", "-S", "-E2", "-lO.lst"]))
    r.shuffle(a)
    if r.random() < .4:
        p = prog.Prog(r, size=r.choice([8, 20, 40]), errors=r.choice([.05, .15]), fwd=r.choice([.1, .4]), weights=dict(prog.DEFAULT, label=10, equ=8, local=5, dollar=5, call=6))
        f = p.build()
        if r.random() < .7:
            ls = f["main.asm"].split("\n")
            for _ in range(r.randrange(1, 4)):
                ls.insert(r.randrange(3, len(ls)), r.choice(["\tdc.b undef%d", "\tdc.w undef%d-1", "\thex 1g", "\tfoobar%d", "\tdc.b 256+%d"]).replace("%d", str(r.randrange(9))))
            f["main.asm"] = "\n".join(ls)
        return {"files": f, "args": ["main.asm"] + a, "kind": "random"}
    lines, files, lack, have, keys = ["\tprocessor 6502", "\torg $1000"], {}, [], [], []
    n = 0
    for _ in range(r.choice([1, 3, 8, 20, 60])):
        n += 1
        k = r.random()
        if k < .35 or n == 1:
            name = r.choice(["u%d", "Undefined_name_%d", "x%d", "n.%d", "u%d" + "_long" * 6, "%d$", ".loc%d"]) % n
            use = r.choice(sorted(USES))
            if name[0] in ".1234567890" and use in ("equ", "eqm", "dv", "fwd"):
                use = "dc"
            if name[0] in "u" and r.random() < .2 and lack:
                name = r.choice(lack)           # used more than once, listed once
                if name[0] in ".1234567890":
                    use = "dc"
                elif use in ("equ", "eqm", "dv", "fwd"):
                    use = "sum"
            t = USES[use].replace("%s", name)
            if r.random() < .15 and name[0] not in ".1234567890":
                f = "i%d.asm" % n
                files[f] = t + "\n"
                t = '\tinclude "%s"' % f
                use += " include"
            elif r.random() < .15 and name[0] not in ".1234567890":
                t = "\tmac m%d\n%s\n\tendm\n\tm%d" % (n, t, n)
                use += " macro"
            lines += t.split("\n")
            if name not in lack:
                lack.append(name)
            keys.append(use)
        elif k < .5:
            lines.append("lab%d" % n)
            # its place depends on what is not known before it
            if not lack:
                have.append("lab%d" % n)
        elif k < .65:
            lines.append("k%d equ %d" % (n, n))
            have.append("k%d" % n)
        elif k < .75:
            lines += ["\tdc.b f%d" % n]
            lines.append("f%d equ %d" % (n, n))
            have.append("f%d" % n)
        elif k < .8:
            lines.append("t%d set \"text\"" % n)
            have.append("t%d" % n)
        elif k < .85:
            lines.append("\tif 0\n\tdc.b dead%d\n\tendif" % n)
        else:
            lines.append("\tdc.b 1")
    files["main.asm"] = "\n".join(lines) + "\n"
    return {"files": files, "args": ["main.asm"] + a, "kind": "direct", "lack": lack, "have": have, "keys": keys}


def judge(case, ctx, v):
    p = common.predict(case, v)
    if p is None:
        return
    o = common.basic(case, ctx, v)
    if o is None:
        return
    if o.code != p.code:
        v.unsure("status differs")              # a matter of other properties
        return
    out = (o.out or b"").decode("latin-1")
    heads = [m.start() for m in re.finditer(r"^--- Unresolved Symbol List\n", out, re.M)]
    want = sorted(n for n, s in p.symbols.items() if s.flags & common.refasm.UNKNOWN)
    v.count("status %d" % p.code)
    if p.code != 3 or p.abort:
        if heads:
            v.fail("unresolved symbols listed though the program is not unresolvable", "status %d" % p.code)
            return
    else:
        if len(heads) != bool(want):
            v.fail("unresolved symbols listed %d times" % len(heads), str(want[:5]))
            return
        if want:
            L = out[heads[0]:].split("\n")[1:]
            end = next((k for k, l in enumerate(L) if l.startswith("---")), None)
            got = sorted(l.split()[0] for l in L[:end] if l.split())
            if end is None or got != want:
                v.fail("other symbols are listed as unresolved", "%s instead of %s" % (got[:8], want[:8]))
                return
            if L[end].split()[1] != str(len(want)):
                v.fail("wrong number of unresolved symbols", L[end])
                return
            if any("????" not in l for l in L[:end] if l.split()):
                v.fail("unresolved symbol without a mark", L[0])
                return
            v.count("unresolved symbols compared", len(want))
            if case["kind"] == "direct":
                for n in case["lack"]:
                    if sum(1 for g in got if g == n or n[0] in ".0123456789" and g.endswith(n)) < 1:
                        v.fail("undefined symbol is not listed", n)
                        return
                bad = set(case["have"]) & set(got)
                if bad:
                    v.fail("defined symbol is listed as unresolved", str(sorted(bad)[:4]))
                    return
        v.saw("list", min(p.passes, 5), min(len(want), 12), case["kind"])
        for k in case.get("keys", []):
            v.saw("use", k, min(p.passes, 5))
    if "-sO.sym" in case["args"] and p.code in (3, 5) and not p.abort:
        raw = o.file("O.sym")
        if raw is None:
            v.fail("no symbol file after a failed assembly", "status %d" % p.code)
            return
        ent = common.symbols(raw)
        if ent is None:
            v.fail("symbol file malformed", raw[:200].decode("latin-1"))
            return
        exp = common.expected_symbols(p)
        if sorted(e[0] for e in ent) != sorted(exp):
            v.fail("symbol file lists other symbols", str(sorted(set(e[0] for e in ent) ^ set(exp))[:5]))
            return
        for e in ent:
            w = exp[e[0]]
            if e[2:] != w[2:] or not e[2] and e[1] != w[1]:
                v.fail("symbol differs in the file of a failed assembly", "%s instead of %s" % (e, w))
                return
        v.count("symbol files after status %d" % p.code)
        v.count("symbols compared", len(ent))
        v.saw("file", p.code, min(len(ent), 20), min(p.passes, 5))


def need(tier):
    return {"status 3": 2000, "unresolved symbols compared": 6000, "symbol files after status 3": 1000, "symbol files after status 5": 300, "symbols compared": 10000}
