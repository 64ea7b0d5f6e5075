from gen import prog
from . import common

ID = "C30"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "fault injection with the file size limit at chosen offsets, and a monitor on the whole working directory"
NOTE = ("Programs that succeed and that fail in different ways run with and without -R, over an existing output file, with an "
        "output that cannot be opened, and with a write failure after a chosen number of bytes; exit status, the output "
        "file and every other file of the directory are compared with what the property allows. ftohex gets the same write failures.")
RULE = "distinct (way to end, -R, existing output, format, place of the write failure relative to the size) combinations"
ASSUME = ["a write failure is simulated by the kernel's file size limit (EFBIG)"] + common.ASSUME
NO_MINIMISE = True

FAIL = {
    "err": "\terr\n", "undefined": "\tlda nosuch\n", "range": "\tlda #300\n", "mnemonic": "\tzzz 1\n",
    "endm": "\tmac q\n\tnop\n", "comment": "/* never closed\n", "oscillate": "pq equ .\n\tif ooo==0\n\tdc.b 1,2\n\tendif\nooo equ .-pq\n",
    "branch": "\tbne .+400\n", "backorg": "\torg $10\n\tdc.b 1\n", "include": '\tinclude "nofile.asm"\n', "incbin": '\tincbin "nofile.bin"\n',
    "align": "\talign 0\n", "macro depth": "\tmac r\n\tr\n\tendm\n\tr\n", "divide": "\tdc.b 1/0\n", "cpu": "\tprocessor z80\n",
    "stray endm": "\tendm\n", "comment end": "*/\n", "size": "\tds 700000\n", "redefined": "pp\tequ 5\n",
    "text depth": "ee\teqm ee+1\n\tdc.b ee\n", "passes": "\tlda later\n",
    "expansion": "\tmac xx\n\tdc.b {1},{1},{1}\n\tendm\n\txx " + "1+" * 300 + "1\n", "long line": "\tdc.b 0" + ",0" * 600 + "\n",
    "label": "pp\tnop\n", "syntax": "\tlda #(\n", "fill": "\torg $5000,later\n",
}


def cases(tier):
    return 18000 if tier == "quick" else 90000


def case(r, i, tier):
    k = r.random()
    fmt = r.choice([1, 2, 3])
    name = r.choice(["O.bin", "O.bin", "a.out", "d/o.bin"])
    args = ["main.asm", "-f%d" % fmt]
    if name != "a.out" or r.random() < .5:
        args.append("-o" + name)
    c = {"out": name, "R": r.random() < .5, "fsize": None, "fail": None, "fmt": fmt}
    extra = {"other.txt": "keep", "O.bin.bak": "old", "b.out": "x", "O": "y"}
    if name != "a.out":
        extra["a.out"] = "not this one"
    if name.startswith("d/"):
        extra["d/keep"] = "z"
    c["old"] = r.choice([None, None, 1, 100, 30000])
    if c["old"]:
        extra[name] = "Q" * c["old"]
    if k < .1:
        n = r.choice([0, 1, 15, 16, 17, 100, 1500, 5000, 20000])
        raw = r.randbytes(n)
        raw = (b"\x00\x10" + raw if fmt == 1 else b"\x00\x10" + bytes([n & 255, n >> 8]) + raw if fmt == 2 else raw)
        return dict(c, kind="ftohex", files={"in": raw.decode("latin-1")}, args=[str(fmt), "in", "h.hex"], cut=r.random(), exact=r.random())
    if k < .5:
        big = r.random() < .5
        if big:
            # long images: more than one buffer of the C library
            L = ["\tprocessor 6502", "\torg $%x" % r.randrange(0, 0x2000)]
            for _ in range(r.randrange(1, 12)):
                L.append(r.choice(["\tds %d,%d" % (r.randrange(1, 3000), r.randrange(256)), "\tdc.b " + ",".join(str(r.randrange(256)) for _ in range(r.randrange(1, 60))),
                                   "\talign %d" % r.choice([16, 256, 1024]), "\trepeat %d\n\tdc.w .\n\trepend" % r.randrange(1, 300), "\torg .+%d" % r.randrange(0, 500)]))
            if r.random() < .3:
                L.insert(2, "\tlda zz")
                L.append("zz\tnop")
            if r.random() < .4:
                # an earlier pass writes more, or less, than the last one
                n, m = r.randrange(3000), r.randrange(3000)
                L.insert(r.randrange(2, len(L) + 1), r.choice([
                    "\tifnconst yy\n\tds %d\n\telse\n\tds %d\n\tendif" % (n, m), "\tifconst yy\n\tds %d\n\tendif" % n, "\tds %d-yy" % (n + 5),
                    "\tif yy==3\n\tds %d\n\telse\n\tds %d\n\tendif" % (n, m), "\trepeat yy\n\tds %d\n\trepend" % (n % 99), "\torg .+yy*%d" % (n % 99)]))
                L.append("yy\tequ %d" % r.choice([3, 3, 2, 0]))
            files = {"main.asm": "\n".join(L) + "\n"}
        else:
            files = prog.Prog(r, size=r.choice([5, 30, 80]), errors=0).build()
        c.update(kind="ok", cut=r.random() if r.random() < .7 else None, where=r.choice(["any", "any", "short1", "exact", "last block", "zero"]))
    elif k < .9:
        f = r.choice(sorted(f for f in FAIL if f != "backorg" or fmt != 2))
        body = ["\tprocessor 6502", "\torg $1000", "pp\tnop"]
        for _ in range(r.choice([0, 2, 10])):
            body.append(r.choice(["\tdc.b 1,2,3", "\tds 700", "\tlda later", "\tnop"]))
        pos = FAIL[f]
        text = "\n".join(body) + "\n"
        if f in ("endm", "comment"):
            text += "later\tnop\n" + pos
        else:
            text += pos + "later\tnop\n" + "\tds 2000\n" * r.randrange(3)
        files = {"main.asm": text}
        if r.random() < .2:
            args.append("-lO.lst")
        if r.random() < .2:
            args.append("-sO.sym")
        if f == "passes":
            args.append(r.choice(["-p1", "-P1"]))
        c.update(kind="fail", fail=f)
    else:
        f = r.choice(["nodir", "isdir", "nomain", "option", "nooption", "longname", "list"])
        files = {"main.asm": "\tprocessor 6502\n\torg $1000\n\tnop\n"}
        args = [a for a in args if not a.startswith("-o")]
        extra.pop(name, None)
        if f == "nodir":
            args.append("-onosuch/o.bin")
        elif f == "isdir":
            extra["dd/file"] = "w"
            args.append("-odd")
        elif f == "longname":
            args.append("-o" + "n" * 300)
        elif f == "nomain":
            args[0] = "nomain.asm"
            args.append("-o" + name)
        elif f == "list":
            args += ["-lnosuch/l.lst", "-o" + name]
        elif f == "option":
            args += ["-o" + name, "-y"]
        else:
            args += ["-o" + name, "-f7"]
        c.update(kind="open", fail=f)
    if c["R"]:
        args.append("-R")
    c["files"] = dict(extra, **files)
    c["args"] = args
    return c


def others(case, o, v, made):
    """Every file that is not an output of the run must be there and unchanged, and nothing else."""
    for n, t in case["files"].items():
        if n not in made:
            if o.file(n) is None:
                v.fail("a file that is not the output was removed", n)
                return
            if o.file(n) != t.encode("latin-1"):
                v.fail("a file that is not the output was changed", n)
                return
    stray = [n for n in o.files["*"] if n not in case["files"] and n not in made and not n.startswith(".")]
    if stray:
        v.fail("a file that nobody asked for was written", str(stray))


def ftohex(case, ctx, v):
    exe = ctx.ftohex("plain")
    o = common.basic(case, ctx, v, exe=exe, outs=["h.hex"])
    if o is None or o.code or o.file("h.hex") is None:
        v.unsure("ftohex without a limit")
        return
    n = len(o.file("h.hex"))
    lim = n - 1 if case["exact"] < .2 else n if case["exact"] < .3 else int(case["cut"] * n)
    v.saw("ftohex", case["fmt"], lim == n, lim == n - 1, lim // 4096, n // 4096)
    v.count("write failures" if lim < n else "writes just possible")
    o = common.basic(case, ctx, v, exe=exe, outs=["h.hex"], fsize=lim)
    if o is None:
        return
    if lim < n and o.code == 0:
        v.fail("ftohex succeeds although the output could not be written", "limit %d of %d bytes" % (lim, n))
    elif lim == n and (o.code or len(o.file("h.hex") or b"") != n):
        v.fail("ftohex fails although the output could be written", "limit %d of %d bytes" % (lim, n))


def judge(case, ctx, v):
    if case["kind"] == "ftohex":
        return ftohex(case, ctx, v)
    name, args = case["out"], case["args"]
    made = {name, "O.lst", "O.sym"}
    if case["kind"] in ("fail", "open"):
        o = common.basic(case, ctx, v, outs=[name], keep_unknown=True)
        if o is None:
            return
        v.saw(case["fail"], case["R"], bool(case["old"]), case["fmt"], name, o.code)
        v.count("failures expected")
        if o.code == 0:
            v.fail("success although %s" % ("the output cannot be opened" if case["kind"] == "open" and case["fail"] in ("nodir", "isdir", "longname") else "the assembly fails"), case["fail"])
            return
        if case["R"] and o.file(name) is not None and (case["kind"] == "fail" or case["fail"] in ("nomain",)):
            v.fail("-R leaves the output of a failed assembly", case["fail"])
            return
        if case["R"]:
            v.count("failures with -R")
        return others(case, o, v, made if case["kind"] == "fail" or case["fail"] in ("nomain", "option", "nooption", "list") else set())
    p = common.predict(case, v)
    if p is None:
        return
    if p.code:
        v.count("random failures")
        o = common.basic(case, ctx, v, outs=[name], keep_unknown=True)
        if o is not None and o.code and case["R"] and o.file(name) is not None:
            v.fail("-R leaves the output of a failed assembly", "random program")
        return
    n = len(p.image)
    lim = None
    if case["cut"] is not None:
        w = case["where"]
        lim = (n - 1 if w == "short1" else n if w == "exact" else 0 if w == "zero" else
               max(0, n - 1 - int(case["cut"] * 4096)) if w == "last block" else int(case["cut"] * n))
        lim = max(lim, 0)
    o = common.basic(case, ctx, v, outs=[name], keep_unknown=True, fsize=lim)
    if o is None:
        return
    img = o.file(name)
    v.saw("ok", case["R"], bool(case["old"]) and case["old"] > n, case["fmt"], name,
          None if lim is None else (lim >= n, lim == n - 1, lim // 4096, n // 4096), p.passes)
    if lim is not None and lim < n:
        v.count("write failures")
        if o.code == 0:
            v.fail("success although the output could not be written", "limit %d of %d bytes" % (lim, n))
        elif case["R"] and img is not None:
            v.fail("-R leaves an output that could not be written", "limit %d of %d bytes" % (lim, n))
    elif lim is None or p.passes == 1:
        v.count("complete outputs")
        if lim is not None:
            v.count("writes just possible")
        if o.code:
            v.fail("failure although the output can be written", "status %d" % o.code)
        elif img != p.image:
            v.fail("success without the complete output", "got %s, expected %s" % (common.clip(img), common.clip(p.image)))
    others(case, o, v, made)


def need(tier):
    return {"write failures": 1000, "complete outputs": 800, "failures with -R": 1000, "writes just possible": 50}
