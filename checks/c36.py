from model import cpu6502 as cpu
from . import common, machines

ID = "C36"
VARIANTS = ["plain"]
LEVEL = "exploration"
TECHNIQUE = "execution of the assembled macros on a simulated processor that records cycles, registers and every memory access"
NOTE = ("The 6502 macros are assembled in random surroundings and executed on a simulated 6502 from random states: cycles, registers and "
        "writes must be what the macros promise. The macros of the other machines are compared with the bytes of the instructions they "
        "stand for, worked out in the check.")
RULE = "distinct (macro, machine, options, argument, surroundings) that were executed or compared"
ASSUME = common.ASSUME + ["the simulated 6502 has the published timing"]
NO_MINIMISE = True


def cases(tier):
    return 10000 if tier == "quick" else 60000


def number(r, n):
    return r.choice(["%d", "$%x", "[%d]", "0+%d"]) % n


def atari(r):
    m = r.choice(["atari2600", "atari2600", "atari7800"])
    head = ["\tprocessor 6502"]
    args = ["main.asm", "-f3", "-oO.bin", "-sO.sym"]
    legal = r.random() < .4
    base = 0
    if m == "atari2600" and r.random() < .3:
        base = 0x40
        if r.random() < .5:
            args.append("-DTIA_BASE_ADDRESS=$40")
        else:
            head.append("TIA_BASE_ADDRESS = $40")
    if legal:
        if r.random() < .5:
            args.append("-DNO_ILLEGAL_OPCODES=1")
        else:
            head.append("NO_ILLEGAL_OPCODES = 1")
    inc = ['\tinclude "vcs.h"', '\tinclude "macro.h"'] if m == "atari2600" else ['\tinclude "7800.h"', '\tinclude "macro.h"']
    if m == "atari2600" and not legal and r.random() < .3:
        inc.reverse()
    args.append("-Im/" + m)
    body, steps, keep = ["\tseg code", "\torg $%x" % r.choice([0x1000, 0xf000, 0xf0f0, 0x8000])], [], None
    rel = r.random() < .3
    if rel:
        body.append("\trorg $%x" % r.choice([0x2000, 0x890, 0xd0fb]))
    tail = []
    kinds = ["sleep"] * 4 + ["pointer"] * 2 + (["clean", "vsync", "boundary"] if m == "atari2600" else [])
    for k in range(r.choice([1, 2, 6])):
        kind = r.choice(kinds)
        n = None
        if kind == "sleep":
            n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, r.randrange(10, 80), r.randrange(80, 500)])
            a = number(r, n)
            if r.random() < .2:
                body.append("w%d set %d" % (k, n))
                a = "w%d" % k
            call = "SLEEP " + a
        elif kind == "pointer":
            n = [r.choice([0x80, 0x81, 0xf0, 0xfe, 0x180, 0x1fe]), r.choice([0, 0x80, 0xff, 0x100, 0x1234, 0xfffe, r.randrange(65536)])]
            a = number(r, n[1])
            if r.random() < .4:
                a = "t%d" % k
                if r.random() < .5:
                    tail.append("t%d = %d" % (k, n[1]))
                else:
                    body.append("t%d = %d" % (k, n[1]))
            call = "SET_POINTER %s,%s" % (number(r, n[0]), a)
        elif kind == "clean":
            call = "CLEAN_START"
        elif kind == "vsync":
            call = "VERTICAL_SYNC"
        else:
            n = r.choice([0, 1, 2, 3, 5, 7, 16, 100, 128, 255, 256])
            call = "BOUNDARY %s" % r.choice(["%d", "$%x"]).__mod__(n)
        body += ["a%d:" % k, "\t" + (call if r.random() < .7 else call.lower().replace("t%d" % k, "t%d" % k)), "b%d:" % k]
        steps.append([kind, n])
        if r.random() < .4:
            body.append("\tdc.b %d" % r.randrange(256))
    return {"files": {"main.asm": "\n".join(head + inc + body + tail) + "\n"}, "args": args, "machine": m, "steps": steps, "base": base,
            "legal": legal, "rel": rel, "kind": "atari", "state": [r.randrange(256) for _ in range(4)] + [r.randrange(256) & ~cpu.B]}


def refused(r):
    m = r.choice(["atari2600", "atari7800"])
    n = r.choice([1, 0, -1, -5])
    src = "\tprocessor 6502\n\tinclude \"%s\"\n\tinclude \"macro.h\"\n\torg $f000\n\tnop\n\tSLEEP %d\n\tnop\n" % (
        "vcs.h" if m == "atari2600" else "7800.h", n)
    return {"files": {"main.asm": src}, "args": ["main.asm", "-f3", "-oO.bin", "-Im/" + m], "machine": m, "kind": "refused", "n": n}


def channelf(r):
    body, b, at = [], b"", r.choice([0x800, 0x900, 0x8f0])
    prompt = r.randrange(0x100, 0xfff)
    late = r.random() < .5
    for k in range(r.choice([1, 2])):
        if r.random() < .4:
            x = r.randbytes(r.randrange(1, 4))
            body.append("\tdc.b " + ",".join(map(str, x)))
            b += x
        which = "start" if k == 0 and r.random() < .6 else "prompts"
        if which == "start":
            body.append("\tCARTRIDGE_START")
            b += bytes([0x55, 0x2b])
        else:
            body.append("\tPROMPTS_NOT")
            w = lambda x: bytes([0x28, x >> 8, x & 255])
            b += (b"\x08" + w(0x107) + b"\x20\x85\x50" + w(prompt) + b"\x44\x25\x08\x94\x05" + w(0x11e) + b"\x0c\x25\x02\x94\xf9\x20\x8e\x50"
                  + w(prompt) + b"\x63\x6e\x4c\xc4\x5c\x90\xe1")
            break
    eq = "prompt = $%x" % prompt
    src = ["\tprocessor f8", "\tseg", "\torg $%x" % at] + ([] if late else [eq]) + ['\tinclude "ves.h"', '\tinclude "macro.h"'] + body + ([eq] if late else [])
    return {"files": {"main.asm": "\n".join(src) + "\n"}, "args": ["main.asm", "-f3", "-oO.bin", "-Im/channel-f"], "machine": "channel-f",
            "kind": "bytes", "bytes": b.hex(), "macros": [l.split()[0] for l in body if "dc.b" not in l]}


def hc908(r):
    part = r.choice(sorted(machines.PARTS08))
    sym = machines.hc08(part, {})
    regs = sorted(n for n in machines.PARTS08[part][0] if not n.startswith("_"))
    zp = [n for n in regs if sym[n] < 256]
    org = r.choice([0xec00, 0xf800])
    lines, b, used, here = [], b"", [], org
    var = sym["RAM_START"]
    fcpu = r.randrange(1, 60)
    lines += ["F_CPU .EQU %d" % fcpu, "next_var .set RAM_START"]
    vars_ = {}
    for k in range(r.randrange(4)):
        n = r.choice([1, 2, 5, 16])
        lines.append("\tdeclare_var v%d,%d" % (k, n))
        vars_["v%d" % k] = var
        var += n
        used.append("declare_var")
    lines.append("\torg $%x" % org)
    sym = dict(sym, **vars_)
    zp += [n for n in vars_ if vars_[n] < 256]
    word = lambda x: bytes([x >> 8, x & 255])
    lda = lambda x: bytes([0xb6, x]) if x < 256 else b"\xc6" + word(x)
    sta = lambda x: bytes([0xb7, x]) if x < 256 else b"\xc7" + word(x)
    mov = lambda a, x: bytes([0x6e, x, a]) if a < 256 else bytes([0xa6, x]) + sta(a)
    choices = "store_reg store_reg16 set_bits clear_bits shake_pin busy_loop_delay and_bits or_bits".split()
    loop = sym.get("MoniRomDelayLoop")
    delay = lambda x, a: bytes([0xae, x, 0xa6, a, 0xcd]) + word(loop)
    delays = {"delay100us": (1, 98 if "jb8" in part else 64)} if "jb8" in part or "jk3" in part else {}
    if "jb8" in part:
        delays.update(delay5us=(1, 3), delay10us=(1, 8), delay2ms=(8, 250), delay4ms=(16, 250))
    if loop:
        choices += ["declare_delay"] + sorted(delays)
        choices.append("fwflasheraseproc" if "jk1" in part else "fw_flash_erase_proc")
        if "jk1" not in part:
            choices.append("fw_delay")
    if "mr32" in part:
        choices.append("switch_to_pll_clock")
    for k in range(r.choice([1, 3, 8])):
        c = r.choice(choices)
        x = r.randrange(256)
        n = r.choice(regs + sorted(vars_))
        a = sym[n]
        z = r.choice(zp)
        if c == "switch_to_pll_clock" and c in used:
            continue
        call, y = c, b""
        if c == "store_reg":
            call, y = "%s %s,#%d" % (c, n, x), mov(a, x)
        elif c == "store_reg16":
            w = r.randrange(65536)
            call, y = "%s %s,#$%x" % (c, z, w), b"\x45" + word(w) + bytes([0x35, sym[z]])
        elif c == "set_bits":
            call, y = "%s %s,#%d" % (c, n, x), b"\x45" + word(a) + bytes([0xf6, 0xaa, x, 0xf7])
        elif c == "clear_bits":
            call, y = "%s %s,%d" % (c, n, x), b"\x45" + word(a) + bytes([0xf6, 0xa4, x ^ 255, 0xf7])
        elif c == "shake_pin":
            k = r.randrange(8)
            call, y = "%s %d,%s" % (c, k, z), bytes([2 * k, sym[z], 4, 0x10 + 2 * k, sym[z], 0x20, 2, 0x11 + 2 * k, sym[z]])
        elif c == "busy_loop_delay":
            call, y = "%s #%d" % (c, x), bytes([0xa6, x, 0x4b, 0xfe])
        elif c in ("and_bits", "or_bits"):
            call, y = "%s %s,#%d" % (c, n, x), lda(a) + bytes([0xa4 if c[0] == "a" else 0xaa, x]) + sta(a)
        elif c == "fw_delay":
            call, y = "%s %d,%d" % (c, x, x ^ 85), delay(x, x ^ 85)
        elif c == "declare_delay":
            call, y = "%s n%d,%d,%d" % (c, k, x, x ^ 85), delay(x, x ^ 85) + b"\x81"
            if "Delayn%d" % k in sym:
                continue
            sym["Delayn%d" % k] = 0
            y += b"\xcd" + word(here + len(b))
            call += "\n\tjsr Delayn%d" % k
        elif c in delays:
            y = delay(*delays[c])
        elif c.startswith("fw"):
            ram = sym["RAM_START"]
            y = mov(ram + 8, 0x40) + mov(ram + 9, 4 * fcpu) + b"\x45" + word(sym["FLASH_START"]) + b"\xcd\xfc\x06"
        else:
            y = bytes([0x3f, 0x5c, 0x1a, 0x5c, 0x1e, 0x5d, 0x0d, 0x5d, 0xfd, 0x18, 0x5c])
        lines.append("\t" + (call if c != "fwflasheraseproc" else r.choice(["fwFlashEraseProc", call])))
        b += y
        used.append(c)
    if r.random() < .3 and b:
        lines.append("\tdeclare_vector _vect_RESET,$%x" % org)
        b += b"\xff" * (0xfffe - org - len(b)) + word(org)
        used.append("declare_vector")
    return {"files": {"main.asm": "\n".join(['\tinclude "%s"' % part] + lines) + "\n"}, "args": ["main.asm", "-f3", "-oO.bin", "-Im/68hc908"],
            "machine": "68hc908", "kind": "bytes", "bytes": b.hex(), "macros": used, "part": part}


def case(r, i, tier):
    k = r.random()
    return atari(r) if k < .6 else refused(r) if k < .65 else channelf(r) if k < .72 else hc908(r)


def judge(case, ctx, v):
    full = dict(case, files=dict(case["files"], **machines.files(case["machine"])))
    o, p = common.agree(full, ctx, v)
    if o is None:
        if v.kind != "held" or p is not None:
            return
        o = common.basic(full, ctx, v)
        if o is None:
            return
    text = (o.out or b"").decode("latin-1")
    if case["kind"] == "refused":
        if o.code == 0 or "must be > 1" not in text:
            v.fail("a SLEEP that is too short is accepted", "SLEEP %d: status %d, %s" % (case["n"], o.code, text[-200:]))
        else:
            v.count("refused")
            v.saw("refused", case["machine"], case["n"])
        return
    if o.code:
        v.fail("a program that uses a supplied macro is refused", text[-400:])
        return
    img = o.file("O.bin")
    if case["kind"] == "bytes":
        want = bytes.fromhex(case["bytes"])
        if img != want:
            k = common.diffpos(img, want)
            v.fail("a macro gives other instructions", "%s at offset %d: %s instead of %s" % (case["macros"], k, img[k:k + 12].hex(), want[k:k + 12].hex()))
            return
        v.count("bytes of macros compared", len(want))
        for m in case["macros"]:
            v.count("macro " + m)
            v.saw(m, case.get("part"), len(case["macros"]))
        return
    dump = {d[0]: d[1] for d in common.symbols(o.file("O.sym") or b"") or ()}
    start = dump.get("a0")
    # the first label stands at the first byte unless something precedes it, which nothing does
    mem0 = {start + k: b for k, b in enumerate(img)}
    for k, (kind, n) in enumerate(case["steps"]):
        a, b = dump.get("a%d" % k), dump.get("b%d" % k)
        if a is None or b is None:
            v.fail("a label at a macro call is missing")
            return
        what = "%s %s (%s%s)" % (kind, "" if n is None else n, case["machine"], ", legal opcodes" if case["legal"] else "")
        if kind == "boundary":
            data = bytes(mem0.get(x, 1) for x in range(a, b))
            want = next(j for j in range(257) if ((a + j & 255) % n if n else a + j & 255) == 0)
            if data != bytes(want):
                v.fail("BOUNDARY pads differently", "%s at $%x: %s" % (what, a, data.hex()))
                return
        else:
            why = execute(dict(mem0), a, b, kind, n, case)
            if why:
                v.fail("%s does something else" % {"sleep": "SLEEP", "pointer": "SET_POINTER", "clean": "CLEAN_START",
                                                   "vsync": "VERTICAL_SYNC"}[kind], what + ": " + why)
                return
        v.count("macro " + kind)
        v.saw(kind, n, case["machine"], case["legal"], case["base"], case["rel"])


def execute(mem, a, b, kind, n, case):
    """Why the code from a to b does not do what the macro promises, or None."""
    x = case["state"]
    mem = {k: y for k, y in mem.items()}
    c = cpu.Cpu(mem, *x)
    before = (c.a, c.x, c.y, c.sp, c.p)
    try:
        c.run(a, b)
    except cpu.Stop as e:
        return str(e)
    after = (c.a, c.x, c.y, c.sp, c.p)
    writes = [(ad, y) for _, w, ad, y in c.log if w == "w"]
    reads = [ad for _, w, ad, _ in c.log if w == "r"]
    if kind == "sleep":
        if c.cycles != n:
            return "takes %d cycles" % c.cycles
        if writes:
            return "writes %s" % writes[:3]
        if after[:4] != before[:4]:
            return "registers were %s and are %s" % (before, after)
        if after[4] != before[4] and (not case["legal"] or (after[4] ^ before[4]) & ~(cpu.N | cpu.V | cpu.Z)):
            return "flags were %02x and are %02x" % (before[4], after[4])
        if case["base"] and any(ad < case["base"] for ad in reads):
            return "reads below the base address: %s" % reads
    elif kind == "pointer":
        if dict(writes) != {n[0]: n[1] & 255, n[0] + 1: n[1] >> 8} or len(writes) != 2:
            return "writes %s" % writes
        if after[1:4] != before[1:4] or (after[4] ^ before[4]) & ~(cpu.N | cpu.Z):
            return "registers were %s and are %s" % (before, after)
    elif kind == "clean":
        if after[:4] != (0, 0, 0, 0xff):
            return "registers are %s" % (after,)
        if after[4] & (cpu.D | cpu.I) != cpu.I:
            return "flags are %02x" % after[4]
        last = {}
        for ad, y in writes:                    # page 1 is the same memory as page 0
            if ad > 0x1ff:
                return "writes to $%04x" % ad
            last[ad & 255] = y
        if len(last) != 256 or any(last.values()):
            return "clears %d locations" % sum(y == 0 for y in last.values())
    else:
        wsync, vsync = case["base"] + 2, case["base"]
        on, lines, spans = False, 0, []
        for ad, y in writes:
            if ad == wsync:
                lines += on
            elif ad == vsync:
                if on and not y & 2:
                    spans.append(lines)
                if y & 2 and not on:
                    lines = 0
                on = bool(y & 2)
            else:
                return "writes to $%04x" % ad
        if on or spans != [3]:
            return "sync lasts %s lines, %s at the end" % (spans, "on" if on else "off")
        if after[0] or after[1:4] != before[1:4]:
            return "registers were %s and are %s" % (before, after)
    return None


def need(tier):
    return {"macro sleep": 2000, "macro pointer": 800, "macro clean": 300, "macro vsync": 300, "macro boundary": 300, "refused": 100,
            "macro CARTRIDGE_START": 50, "macro PROMPTS_NOT": 50, "macro store_reg": 100, "macro shake_pin": 100, "macro declare_var": 300,
            "macro fw_delay": 50, "macro delay4ms": 5, "macro switch_to_pll_clock": 20, "bytes of macros compared": 20000}
