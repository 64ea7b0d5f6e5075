import re
from gen import isa, prog
from . import common

ID = "C27"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "metamorphic monitor: output and exit status of a program and of re-laid-out twins; strings with expected bytes"
NOTE = ("Random programs are written again with other comments, blank lines, white space, line ends, letter case, prefixes, "
        "label decorations and without the last newline; output file and exit status must be those of the original. Strings "
        "and character constants full of comment characters and white space must come out byte for byte.")
RULE = "distinct (kind of change, kind of line) changes made in programs that assembled, and distinct strings"
ASSUME = common.ASSUME
NO_MINIMISE = True

LABEL = re.compile(r"^(\.?[A-Za-z_][A-Za-z0-9_.]*|[0-9]+\$)$")
MN = re.compile(r"^[.#]?[A-Za-z][A-Za-z0-9.]*$")
COMMENTS = ["; plain", ";", ";; two", "; it's", '; "open', "; a /* b", "; c */ d", "; a,b", ";\tlda #5", "; [", "; $ % ' x", "; " + "x" * 1100,
            "; " + "x " * 505 + "\tlda #5\tdc.b 7 " * 9, "; long" + " " * 1200 + "\tnop"]
BLOCKS = ["/* c */", "/**/", "/* ; */", "/* it's */", '/* " */', "/* lda #5 */", "/* a *//* b */"]


def cases(tier):
    return 9000 if tier == "quick" else 60000


def split(line):
    """(statement, comment) with the comment sign outside quotes, or None when the line is not simple."""
    i = 0
    while i < len(line):
        c = line[i]
        if c == ";":
            return line[:i], line[i:]
        if c == '"':
            e = line.find('"', i + 1)
            if e < 0:
                return None
            i = e
        elif c == "'":
            i += 1
        i += 1
    return line, ""


def space(r, least=1):
    return "".join(r.choice(" \t ") for _ in range(r.choice([1, 1, 2, 5, 12]) if least else r.choice([0, 0, 1, 3])))


def relay(r, text, macros, kinds, seen):
    out, inside = [], False
    for line in text.split("\n")[:-1]:
        if inside or "/*" in line or "*/" in line:
            inside = "*/" not in line if inside else "/*" in line and "*/" not in line[line.find("/*"):]
            out.append(line)
            continue
        p = split(line)
        if p is None:
            out.append(line)
            continue
        st, com = p
        m = re.match(r"^(\S*)(?:\s+(\S+)(?:\s+(.*\S))?)?\s*$", st.rstrip("\n"), re.S)
        if not m or (m.group(1) and not LABEL.match(m.group(1))) or (m.group(2) and not MN.match(m.group(2))):
            out.append(line)
            continue
        lab, mn, op = m.group(1), m.group(2) or "", m.group(3) or ""
        base = mn.lower().lstrip(".#").split(".")[0]
        new = lab
        if lab and "label" in kinds:
            k = r.random()
            if k < .25:
                new, s = space(r, 0) + "^" + space(r, 0) + lab, "caret"
            elif k < .5:
                new, s = lab + ":", "colon"
            elif k < .6:
                new, s = "^" + lab + ":", "both"
            else:
                s = None
            if s:
                seen.add((s, base))
        if mn and "case" in kinds and not base in macros and r.random() < .6:
            mn = "".join(r.choice([c.upper(), c.lower()]) for c in mn)
            seen.add(("case", base))
        sep1 = "\t"
        sep2 = "\t"
        if "space" in kinds:
            sep1, sep2 = space(r), space(r)
            seen.add(("space", base, bool(op)))
            if new.endswith(":") and r.random() < .3:
                sep1 = ""
                seen.add(("joined", base))
        if mn and "prefix" in kinds and mn[0] not in ".#" and r.random() < .5:
            if (lab or r.random() < .5) and "." not in mn:
                mn = "." + mn
                seen.add(("dot", base))
            elif not lab:
                mn = "#" + mn
                seen.add(("hash", base))
                if r.random() < .5:
                    sep1 = ""
        if not mn and not lab:
            s = st
        else:
            s = new + (sep1 + mn if mn else "") + (sep2 + op if op else "")
        if "space" in kinds and r.random() < .4:
            s += space(r)
        if "comment" in kinds:
            k = r.random()
            if k < .3:
                com = r.choice(["", " ", "\t"]) + r.choice(COMMENTS)
                seen.add(("comment", com, base))
            elif k < .45:
                com = ""
            elif k < .6:
                b = r.choice(BLOCKS)
                if r.random() < .5 and mn and not com:
                    s = new + sep1 + mn + " " + b + sep2 + op
                else:
                    s += " " + b
                seen.add(("block", b, base))
            elif k < .7:
                s += r.choice([" ", "\t"]) + "/* begin\n  lda #7\n ; x " + r.choice(["", "it's", '"', "endm", "\n\n", "\tendif"]) + "\n end */"
                com = ""
                seen.add(("long block", base))
        out.append(s + com)
        if "blank" in kinds and r.random() < .2:
            out.append(r.choice(["", " ", "\t", "; only", "   ; text", "/* x */", "/*", "\t\t  "]))
            if out[-1] == "/*":
                out += ["\tdc.b 99", "*/"]
            seen.add(("blank", out[-1]))
    text = "\n".join(out) + "\n"
    if "crlf" in kinds:
        text = text.replace("\n", "\r\n")
        seen.add("crlf")
    if "eof" in kinds and text.rstrip("\r\n"):
        text = text[:-2] if text.endswith("\r\n") and r.random() < .5 else text[:-1]
        seen.add(("eof", text[-1:] == "\r"))
    return text


def strings(r):
    lines, want = [], b""
    parts = ["a", " ", "  ", ";", "/*", "*/", "'", "\t", ",", "x y", "#", "^", ":", "[", "$", "%", "Lda", "=", "!", "\\", "\\n", "//", ".b", "end"]
    keys = []
    for _ in range(r.randrange(1, 8)):
        k = r.random()
        if k < .7:
            s = "".join(r.choice(parts) for _ in range(r.randrange(0, 8))) or "q"
            op, b = '"%s"' % s, s.encode()
        else:
            s = r.choice("abcXYZ019;/*\",:#^[$%!=.@ <>&|")
            op, b = "'" + s, s.encode()
        if r.random() < .4:
            n = r.randrange(256)
            op, b = (op + ",%d" % n, b + bytes([n])) if r.random() < .5 else ("%d,%s" % (n, op), bytes([n]) + b)
        keys.append(op)
        tail = r.choice(["", "", " ", "\t", " ; c", ";c \"", " ; it's", " /* c */", " /* ; \" */", "\t/* ' */ ; x"])
        if op[0] == "'" and len(op) == 2 and op[1] == " " and not tail:
            tail = " ;"
        lines.append(r.choice(["\t", " ", "l%d " % len(lines)]) + r.choice(["dc.b", "DC.B", ".byte", "byte", "#dc"]) .replace("#dc", "dc") + r.choice([" ", "\t", "  \t"]) + op + tail)
        want += b
    return lines, want, keys


def case(r, i, tier):
    args = ["main.asm", "-f%d" % r.choice([1, 2, 3]), "-oO.bin"]
    if r.random() < .3:
        lines, want, keys = strings(r)
        eol = r.choice(["\n", "\n", "\r\n"])
        t = eol.join(["\tprocessor 6502", "\torg $1000"] + lines) + (eol if r.random() < .8 else "")
        place = r.random()
        if place < .15:
            t = eol.join(["\tprocessor 6502", "\torg $1000", "\tmac mm"] + [l for l in lines] + ["\tendm", "\tmm", ""])
        return {"files": {"main.asm": t}, "args": ["main.asm", "-f3", "-oO.bin"], "kind": "strings", "want": want.hex(), "keys": keys}
    p = prog.Prog(r, size=r.choice([5, 15, 40]), errors=r.choice([0, 0, 0, .1]), fwd=r.choice([.1, .3]), comments=.2)
    files = p.build()
    macros = {m[0].lower() for m in p.macros}
    twins = []
    for _ in range(2):
        allk = ["label", "case", "space", "prefix", "comment", "blank", "crlf", "eof"]
        kinds = r.sample(allk, r.choice([1, 2, 3, 8]))
        seen = set()
        twin = {n: relay(r, t, macros, kinds, seen) if isinstance(t, str) and n.endswith((".asm", ".inc", ".h")) else t for n, t in files.items()}
        twins.append([twin, kinds, sorted(map(repr, seen))])
    return {"files": files, "args": args, "kind": "twins", "twins": twins}


def judge(case, ctx, v):
    o = common.basic(case, ctx, v)
    if o is None:
        return
    if case["kind"] == "strings":
        for k in case["keys"]:
            v.saw(k)
        v.count("strings", len(case["keys"]))
        if o.code:
            v.fail("valid strings refused", (o.out or b"")[-300:].decode("latin-1"))
        elif o.file("O.bin") != bytes.fromhex(case["want"]):
            v.fail("string altered", "%s instead of %s" % (common.clip(o.file("O.bin")), case["want"][:96]))
        return
    v.count("programs %s" % ("assembled" if o.code == 0 else "refused"))
    for files, kinds, seen in case["twins"]:
        q = common.basic(dict(case, files=files), ctx, v)
        if q is None:
            return
        v.count("twins")
        for k in kinds:
            v.count("changed " + k)
        if q.code and o.code and 'dc "abc\n' in "".join(t for t in case["files"].values() if isinstance(t, str)):
            continue                # an open string runs to the end of the line, so its layout belongs to it
        if "/* open" in "".join(t for t in case["files"].values() if isinstance(t, str)):
            continue                # any comment put in later would close it
        if q.code != o.code:
            v.fail("layout changes the exit status", "%s: %d instead of %d: %s" % (kinds, q.code, o.code, (q.out or b"")[-300:].decode("latin-1")))
            case["twin"] = files
            return
        if not o.code:
            for s in seen:
                v.saw(s)
            if q.file("O.bin") != o.file("O.bin"):
                case["twin"] = files
                v.fail("layout changes the output", str(kinds))
                return


def need(tier):
    return {"strings": 3000, "programs assembled": 2000, "twins": 5000, "changed label": 1500, "changed crlf": 1500, "changed eof": 1500, "changed comment": 1500}
