from . import common, machines

ID = "C35"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "symbol file and output of programs that include the supplied headers, compared with register maps written down separately"
NOTE = ("Programs include the supplied headers in every supported way (base addresses and memory sizes given or not, before or after "
        "an origin, once or twice, by path or search directory); every symbol of the register map must have its value in the symbol "
        "file and where the program uses it, and the code around the header must come out as without it.")
RULE = "distinct (header, way of including, what was given before, symbol, place it was compared) observations"
ASSUME = common.ASSUME + ["the register maps of the 68HC908 parts are those the headers had when the check was written"]
NO_MINIMISE = True


def cases(tier):
    return 6000 if tier == "quick" else 40000


def given(r, names, values):
    """Symbols set before the header: {name: value}, and where."""
    res = {n: r.choice(values) for n in names if r.random() < .5}
    return res if r.random() < .8 else {}


def case(r, i, tier):
    kind = r.choice(["vcs", "vcs", "7800", "ves", "hc11", "hc08", "hc08"])
    set_ = {}
    org = r.choice([0x100, 0x1000, 0xf000, 0x8000])
    early = r.random() < .5                     # an origin before the header
    if kind == "vcs":
        d, f, cpu = "atari2600", "vcs.h", r.choice(["6502", "6502", "65c02"])
        set_ = given(r, ["TIA_BASE_ADDRESS", "TIA_BASE_READ_ADDRESS", "TIA_BASE_WRITE_ADDRESS"], [0, 0x30, 0x40, 0x80, 0x100])
        base = set_.get("TIA_BASE_ADDRESS", 0)
        want = machines.vcs(base, set_.get("TIA_BASE_READ_ADDRESS"), set_.get("TIA_BASE_WRITE_ADDRESS"))
    elif kind == "7800":
        d, f, cpu, want = "atari7800", "7800.h", "6502", machines.atari7800()
    elif kind == "ves":
        d, f, cpu, want = "channel-f", "ves.h", "f8", machines.ves(early)
    elif kind == "hc11":
        d, f, cpu = "68hc11", r.choice(sorted(machines.PARTS11)), "68hc11"
        set_ = given(r, ["REGBASE"], [0x1000, 0x2000, 0])
        want = machines.hc11(f, set_.get("REGBASE", 0))
    else:
        d, f, cpu = "68hc908", r.choice(sorted(machines.PARTS08)), "68908"
        set_ = given(r, ["RAM_START", "RAM_SIZE", "FLASH_START", "FLASH_SIZE"], [0x60, 0x100, 0xc000])
        want = machines.hc08(f, set_)
    args = ["main.asm", "-f%d" % r.choice([1, 2, 3]), "-oO.bin", "-sO.sym"]
    lines, emits = [], []
    if kind not in ("hc11", "hc08") or r.random() < .5:
        lines.append("\tprocessor " + cpu)
    option = []
    for n, x in set_.items():
        if r.random() < .5:
            option.append("-D%s=%d" % (n, x))
        else:
            lines.append("%s %s %d" % (n, r.choice(["=", "equ"]), x))
    here = None
    big = kind in ("ves", "hc11", "hc08")

    def emit(b):
        nonlocal here
        emits.append([here, b.hex()])
        here += len(b)
    if early:
        if not any("processor" in l for l in lines):
            lines.insert(0, "\tprocessor " + cpu)
        if kind in ("vcs", "ves"):              # these end in the segment without a name
            lines.append("\tseg")
        lines.append("\torg $%x" % org)
        here = org
        if r.random() < .5:
            b = r.randbytes(r.randrange(1, 5))
            lines.append("\tdc.b " + ",".join(map(str, b)))
            emit(b)
    way = r.choice(["option", "directive", "path", "slash"])
    if way == "option":
        args.append("-Im/" + d)
    elif way == "slash":
        args.append("-Im/%s/" % d)
    elif way == "directive":
        lines.append('\tincdir "m/%s"' % d)
    name = f
    if way == "path":                           # the headers include each other by name
        name = "m/%s/%s" % (d, f)
        if kind in ("hc11", "hc08"):
            args.append("-Im/" + d)
    # the switch for the old names of the Channel F is a label, which has no value before an origin
    for _ in range(1 if r.random() < .85 or kind == "ves" and not early else 2):
        lines.append('%s %s "%s"' % (r.choice(["\t", "        "]), r.choice(["include", "INCLUDE", ".include", "#include"]), name))
    if early:
        lines.append("behind:")
        want = dict(want, behind=here)
    else:
        lines.append("\torg $%x" % org)
        here = org
    used = []
    for n in r.sample(sorted(want), min(len(want), r.choice([0, 5, 30]))):
        x = want[n]
        if r.random() < .7 or x > 0xffff:
            lines.append("\t%s %s" % ("dc.w" if cpu != "f8" else r.choice(["dc.w", "dw"]), n))
            emit((x & 0xffff).to_bytes(2, "big" if big else "little"))
        elif r.random() < .5:
            lines.append("\tdc.b <%s,>%s" % (n, n))
            emit(bytes([x & 255, x >> 8 & 255]))
        elif cpu in ("6502", "65c02"):
            lines.append("\tsta %s" % n)
            emit(bytes([0x85, x]) if x < 256 else bytes([0x8d, x & 255, x >> 8]))
        elif cpu in ("68hc11", "68908"):
            op = (0x97, 0xb7) if cpu == "68hc11" else (0xb7, 0xc7)
            lines.append("\tsta%s %s" % ("a" if cpu == "68hc11" else "", n))
            emit(bytes([op[0], x]) if x < 256 else bytes([op[1], x >> 8, x & 255]))
        else:
            lines.append("\tli <%s" % n)
            emit(bytes([0x20, x & 255]))
        used.append(n)
    b = r.randbytes(3)
    lines.append("\tdc.b " + ",".join(map(str, b)))
    emit(b)
    lines.append("final:")
    want = dict(want, final=here)
    r.shuffle(option)
    return {"files": {"main.asm": "\n".join(lines) + "\n"}, "args": args + option, "machine": d, "header": f, "want": want, "emits": emits,
            "used": used, "key": [f, way, early, sorted(set_), "-D" if option else ""]}


def judge(case, ctx, v):
    full = dict(case, files=dict(case["files"], **machines.files(case["machine"])))
    o, p = common.agree(full, ctx, v)
    if o is None:
        if v.kind != "held" or p is not None:
            return
        o = common.basic(full, ctx, v)
        if o is None:
            return
    if o.code:
        v.fail("a program that includes a supplied header is refused", "%s: %s" % (case["header"], (o.out or b"").decode("latin-1")[-400:]))
        return
    dump = common.symbols(o.file("O.sym") or b"")
    if dump is None:
        v.fail("symbol file malformed")
        return
    dump = {d[0]: d for d in dump}
    for n, x in case["want"].items():
        if n not in dump or dump[n][2] or dump[n][1] != x:
            v.fail("symbol of a header has another value", "%s: %s instead of %s = $%x" % (case["header"], dump.get(n), n, x))
            return
        v.saw(*case["key"], n, n in case["used"])
    v.count("symbols of headers compared", len(case["want"]))
    by = {}
    for a, b in case["emits"]:
        for k, x in enumerate(bytes.fromhex(b)):
            by[a + k] = x
    lo = min(by)
    flat = bytes(by.get(a, 0xff) for a in range(lo, max(by) + 1))
    img = o.file("O.bin")
    fmt = [a for a in case["args"] if a.startswith("-f")][0]
    start = lo.to_bytes(2, "little")
    want = {"-f1": start + flat, "-f2": start + len(flat).to_bytes(2, "little") + flat, "-f3": flat}[fmt]
    if img != want:
        v.fail("code around a header differs", "%s: got %s, expected %s" % (case["header"], common.clip(img), common.clip(want)))
        return
    v.count("bytes around headers compared", len(flat))
    v.count("header " + case["header"])
    v.count("values in code compared", len(case["used"]))


def need(tier):
    return dict({"header " + h: 30 for h in ["vcs.h", "7800.h", "ves.h"] + sorted(machines.PARTS11) + sorted(machines.PARTS08)},
                **{"symbols of headers compared": 50000, "values in code compared": 5000})
