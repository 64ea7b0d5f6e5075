"""Comparing a run with the reference model."""
import re, sys
from lib.harness import HANG
from model import refasm

ASSUME = ["the reference model and its instruction tables are right where they agree with the program",
          "a difference is reported only for the observables the property speaks about"]


def options(args):
    """Model options for a command line (without the program name)."""
    o = dict(main=args[0], fmt=1, cmdline=[], incdirs=[], strict=False, passes=10, allpasses=False,
             maxsize=640 * 1024)
    for a in args[1:]:
        k, t = a[1], a[2:]
        if k == "f":
            o["fmt"] = int(t)
        elif k in "DM":
            n, _, e = t.partition("=")
            o["cmdline"].append((k, n, e if "=" in t else "0"))
        elif k == "I":
            if t not in o["incdirs"]:
                o["incdirs"].append(t)
        elif k == "S":
            o["strict"] = True
        elif k in "pP":
            o["passes"] = int(t)
            o["allpasses"] = o["allpasses"] or k == "P"
        elif k == "m":
            o["maxsize"] = int(t) * 1024
        elif k in "oslLvTERd":
            pass
        else:
            raise ValueError(a)
    return o


def predict(case, v=None, args=None, **kw):
    """The model's result, or None when the source is outside the model."""
    try:
        return refasm.assemble(case["files"], **options(args or case["args"]), **kw)
    except refasm.Unsupported as e:
        if v is not None:
            v.count("outside-model")
            v.count("outside-model: %s" % e)
        return None


def outname(args):
    for a in args:
        if a.startswith("-o"):
            return a[2:]
    return "a.out"


def clip(b, n=48):
    if b is None:
        return "none"
    return b[:n].hex() + ("..." if len(b) > n else "") + " (%d bytes)" % len(b)


def diffpos(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n


def basic(case, ctx, v, variant="plain", args=None, **kw):
    """Runs a case; returns the observation, or None when it ended abnormally."""
    o = ctx.run(case, variant, v, args=args, **kw)
    if o.timeout:
        # only a run that is still going after a second, longer try counts as one that does not end
        if ctx.patience > 1:
            v.fail(HANG, "no end after %.0f s" % o.secs)
        else:
            v.unsure("time limit")
        return None
    if o.signal:
        v.fail("killed by signal %d" % o.signal, (o.out or b"")[-300:].decode("latin-1"))
        return None
    return o


def agree(case, ctx, v, image=True, args=None, tag="", exact=False, **kw):
    """Runs a case and compares success and output file (exact: also the exit status) with the model.

    Returns (observation, prediction); either is None if it cannot be used."""
    p = predict(case, v, args)
    if p is None:
        return None, None
    o = basic(case, ctx, v, args=args, **kw)
    if o is None:
        return None, p
    a = args or case["args"]
    if o.code != p.code and (exact or not (o.code and p.code)):
        v.fail("%sexit status %s instead of %s" % (tag, klass(o.code), klass(p.code)),
               "model errors: %s; console: %s" % (p.errors[:3], (o.out or b"").decode("latin-1")[-400:]))
        return o, p
    v.count("status %d" % p.code)
    if image and p.code == 0:
        img = o.file(outname(a))
        v.count("bytes compared", len(p.image))
        if img != p.image:
            if img is None:
                v.fail(tag + "no output file")
            else:
                k = diffpos(img, p.image)
                v.fail(tag + "output differs", "at offset %d: got %s, expected %s (lengths %d, %d)"
                       % (k, img[k:k + 12].hex(), p.image[k:k + 12].hex(), len(img), len(p.image)))
    v.count("passes %d" % p.passes)
    return o, p


def klass(c):
    return "0 (success)" if c == 0 else "%d" % c


SYMLINE = re.compile(r'^(\S+)\s+([0-9a-f]{4,}) (\?\?\?\?|    ) (str|   ) (eqm|   ) '
                     r'(\(R \)|\( S\)|\(RS\)|    )(?: "(.*)"| *)$', re.S)


def symbols(text):
    """Entries of a symbol dump: [(name, value, unknown, string, eqm, referenced, set, text)], or None."""
    t = text.decode("latin-1")
    if not t.startswith("--- Symbol List") or not t.endswith("--- End of Symbol List.\n"):
        return None
    res = []
    for line in t.split("\n")[1:-2]:
        m = SYMLINE.match(line)
        if not m:
            return None
        f = m.group(6)
        res.append((m.group(1), int(m.group(2), 16), m.group(3) != "    ", m.group(4) == "str", m.group(5) == "eqm",
                    "R" in f, "S" in f, m.group(7)))
    return res


def expected_symbols(p):
    """What the dump should list, by name."""
    res = {}
    for n, y in p.symbols.items():
        f = y.flags
        res[n] = (n, y.value & 0xFFFFFFFFFFFFFFFF, bool(f & refasm.UNKNOWN), bool(f & refasm.STRING),
                  bool(f & refasm.MACRO), bool(f & refasm.MASREF), bool(f & refasm.SET),
                  y.string if f & refasm.STRING else None)
    return res


def check_symbols(o, p, v, name="O.sym", values_only=False):
    """Compares the dump of a run with the model's symbol table (values, flags, text; no order)."""
    raw = o.file(name)
    if raw is None:
        v.fail("no symbol file")
        return None
    got = symbols(raw)
    if got is None:
        v.fail("symbol file malformed", raw[:300].decode("latin-1"))
        return None
    want = expected_symbols(p)
    names = [g[0] for g in got]
    if sorted(names) != sorted(want):
        extra = sorted(set(names) - set(want))[:4]
        lack = sorted(set(want) - set(names))[:4]
        v.fail("symbol file lists other symbols", "too many %s, missing %s, duplicates %s"
               % (extra, lack, sorted({n for n in names if names.count(n) > 1})[:4]))
        return None
    for g in got:
        w = want[g[0]]
        if values_only:
            g, w = g[:4], w[:4]
        if g != w:
            v.fail("symbol differs", "got %s, expected %s" % (g, w))
            return None
    v.count("symbols compared", len(got))
    return got


def stats_seen(v, p, *key, prefixes=("m:", "op", "d:", "err", "forced", "bss", "hunk", "eqm", "macarg")):
    """Records which features of the language the run went through."""
    for k in p.stats:
        if k.startswith(prefixes):
            v.saw(*key, k, min(p.stats[k], 3), p.code == 0)
