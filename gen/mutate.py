"""Damaged versions of real sources."""
import glob, os
from lib.build import REPO
from . import limits

_corpus = None


def corpus():
    """The test suite's sources, cut into pieces of at most 120 lines."""
    global _corpus
    if _corpus is None:
        res = []
        for p in sorted(glob.glob(os.path.join(REPO, "test", "**", "*.*"), recursive=True)):
            if p.rsplit(".", 1)[-1].lower() not in ("asm", "h", "inc", "i", "s"):
                continue
            with open(p, "rb") as f:
                t = f.read().decode("latin-1")
            L = t.split("\n")
            for k in range(0, len(L), 120):
                res.append("\n".join(L[k:k + 120]))
        _corpus = res or ["\tprocessor 6502\n\torg $1000\nlab\tlda #1\n\tbne lab\n"]
    return _corpus


TOKENS = ["processor 6502", "processor f8", "org", "rorg", "rend", "seg", "seg.u", "dc.b", "dc.w", "dc.l", "ds", "align", "equ", "=", "set", "eqm", "dv", "if", "else",
          "endif", "eif", "ifconst", "ifnconst", "repeat", "repend", "mac", "endm", "mexit", "include", "incbin", "incdir", "echo", "err", "end", "hex", "list",
          "subroutine", "setstr", "setsym", "lda", "sta", "bne", "jmp", "#", "<", ">", "[", "]", "(", ")", "{1}", "{2}", "{0}", "\"", "'", ",", ",x", ",y", "),y", "1$",
          ".l", "..", "...", "*", "+", "-", "/", "%", "&&", "||", "<<", ">>", "==", "!=", "~", "!", "?", "0", "-1", "$ffffffffffffffff", "255", "256", "65536", "%101", "0x",
          "$", "/*", "*/", ";", "\t", " ", "\x00", "\xff", "\x80", "[1]d", "]d", ".b", ".w", ":", "\\"]


def damage(r, text):
    for _ in range(r.choice([1, 1, 2, 3, 6, 12])):
        L = text.split("\n")
        k = r.randrange(13)
        i = r.randrange(len(L))
        if k == 0:
            del L[i]
        elif k == 1:
            L.insert(r.randrange(len(L) + 1), L[i])
        elif k == 2:
            j = r.randrange(len(L))
            L[i], L[j] = L[j], L[i]
        elif k == 3:
            s = L[i]
            p = r.randrange(len(s) + 1)
            L[i] = s[:p] + r.choice(TOKENS) + s[p:]
        elif k == 4:
            s = L[i]
            if s:
                p = r.randrange(len(s))
                L[i] = s[:p] + s[p + r.choice([1, 1, 2, 5, 50]):]
        elif k == 5:
            s = L[i]
            if s:
                p = r.randrange(len(s))
                L[i] = s[:p] + chr(ord(s[p]) ^ 1 << r.randrange(8) & 0xff) + s[p + 1:]
        elif k == 6:
            t = r.choice(corpus()).split("\n")
            a = r.randrange(len(t))
            L[i:i] = t[a:a + r.choice([1, 3, 10])]
        elif k == 7:
            L[i] = L[i][:r.randrange(len(L[i]) + 1)]
        elif k == 8:
            w = L[i].split()
            if w:
                w[r.randrange(len(w))] = r.choice(TOKENS)
                L[i] = r.choice(["", "\t"]) + " ".join(w)
        elif k == 9:
            L[i] = L[i] * r.choice([2, 5, 40])
        elif k == 10:
            if i + 1 < len(L):
                L[i:i + 2] = [L[i] + r.choice(["", " ", ","]) + L[i + 1]]
        elif k == 11:
            L.insert(i, limits.body(r, {}))
        else:
            L = L[:i + 1]
        text = "\n".join(L) or "\n"
    return text[:60000]


def program(r):
    t = damage(r, r.choice(corpus()))
    if "rocessor" not in t.lower().replace("\"", "")[:400] and r.random() < .8:
        t = "\tprocessor %s\n" % r.choice(limits.CPUS) + t
    if r.random() < .5 and "org" not in t[:300].lower():
        t = t.replace("\n", "\n\torg $1000\n", 1)
    files = {"main.asm": t}
    if r.random() < .3:
        files["vcs.h"] = files["macro.h"] = files["inc.h"] = damage(r, r.choice(corpus()))
    return files
