"""A 6502 that executes assembled code and records every access to memory and the cycles it takes."""

N, V, B, D, I, Z, C = 0x80, 0x40, 0x10, 0x08, 0x04, 0x02, 0x01
IMP, IMM, ZP, ZPX, ZPY, ABS, ABX, ABY, IND, INX, INY, REL, ACC = range(13)
LEN = {IMP: 1, ACC: 1, IMM: 2, ZP: 2, ZPX: 2, ZPY: 2, INX: 2, INY: 2, REL: 2, ABS: 3, ABX: 3, ABY: 3, IND: 3}

READ = {IMM: 2, ZP: 3, ZPX: 4, ZPY: 4, ABS: 4, ABX: 4, ABY: 4, INX: 6, INY: 5}
WRITE = {ZP: 3, ZPX: 4, ZPY: 4, ABS: 4, ABX: 5, ABY: 5, INX: 6, INY: 6}
RMW = {ACC: 2, ZP: 5, ZPX: 6, ABS: 6, ABX: 7}

OPS = {}            # opcode: (name, mode, cycles)


def _put(name, table, **modes):
    for m, op in modes.items():
        mode = globals()[m.upper()]
        OPS[op] = (name, mode, table[mode])


for _k, _n in enumerate("ora and eor adc sta lda cmp sbc".split()):
    _b = 0x20 * _k
    _t = WRITE if _n == "sta" else READ
    _put(_n, _t, zp=_b + 5, zpx=_b + 0x15, abs=_b + 0xd, abx=_b + 0x1d, aby=_b + 0x19, inx=_b + 1, iny=_b + 0x11)
    if _n != "sta":
        _put(_n, _t, imm=_b + 9)
for _k, _n in enumerate("asl rol lsr ror - - dec inc".split()):
    if _n != "-":
        _b = 0x20 * _k
        _put(_n, RMW, zp=_b + 6, zpx=_b + 0x16, abs=_b + 0xe, abx=_b + 0x1e)
        if _k < 4:
            _put(_n, RMW, acc=_b + 0xa)
_put("stx", WRITE, zp=0x86, zpy=0x96, abs=0x8e)
_put("sty", WRITE, zp=0x84, zpx=0x94, abs=0x8c)
_put("sax", WRITE, zp=0x87, zpy=0x97, abs=0x8f, inx=0x83)
_put("ldx", READ, imm=0xa2, zp=0xa6, zpy=0xb6, abs=0xae, aby=0xbe)
_put("ldy", READ, imm=0xa0, zp=0xa4, zpx=0xb4, abs=0xac, abx=0xbc)
_put("lax", READ, zp=0xa7, zpy=0xb7, abs=0xaf, aby=0xbf, inx=0xa3, iny=0xb3)
_put("cpx", READ, imm=0xe0, zp=0xe4, abs=0xec)
_put("cpy", READ, imm=0xc0, zp=0xc4, abs=0xcc)
_put("bit", READ, zp=0x24, abs=0x2c)
_put("nop", READ, imm=0x80, zp=0x04, abs=0x0c)
for _op in (0x82, 0x89, 0xc2, 0xe2):
    OPS[_op] = ("nop", IMM, 2)
for _op in (0x44, 0x64):
    OPS[_op] = ("nop", ZP, 3)
for _op in (0x14, 0x34, 0x54, 0x74, 0xd4, 0xf4):
    OPS[_op] = ("nop", ZPX, 4)
for _op in (0x1c, 0x3c, 0x5c, 0x7c, 0xdc, 0xfc):
    OPS[_op] = ("nop", ABX, 4)
for _op in (0x1a, 0x3a, 0x5a, 0x7a, 0xda, 0xfa, 0xea):
    OPS[_op] = ("nop", IMP, 2)
OPS[0xab] = ("lxa", IMM, 2)
for _op, _n in ((0x18, "clc"), (0x38, "sec"), (0x58, "cli"), (0x78, "sei"), (0xb8, "clv"), (0xd8, "cld"), (0xf8, "sed"), (0xaa, "tax"),
                (0xa8, "tay"), (0x8a, "txa"), (0x98, "tya"), (0xba, "tsx"), (0x9a, "txs"), (0xca, "dex"), (0x88, "dey"), (0xe8, "inx"),
                (0xc8, "iny")):
    OPS[_op] = (_n, IMP, 2)
for _op, _n, _c in ((0x48, "pha", 3), (0x08, "php", 3), (0x68, "pla", 4), (0x28, "plp", 4), (0x60, "rts", 6)):
    OPS[_op] = (_n, IMP, _c)
OPS[0x4c] = ("jmp", ABS, 3)
OPS[0x6c] = ("jmp", IND, 5)
OPS[0x20] = ("jsr", ABS, 6)
for _op, _n, _f, _w in ((0x10, "bpl", N, 0), (0x30, "bmi", N, 1), (0x50, "bvc", V, 0), (0x70, "bvs", V, 1), (0x90, "bcc", C, 0),
                        (0xb0, "bcs", C, 1), (0xd0, "bne", Z, 0), (0xf0, "beq", Z, 1)):
    OPS[_op] = (("branch", _f, _w), REL, 2)


class Stop(Exception):
    """The code does something the simulation has no answer for."""


class Cpu:
    def __init__(self, mem, a=0, x=0, y=0, sp=0xff, p=0x20):
        self.mem = mem                          # {address: byte}
        self.a, self.x, self.y, self.sp, self.p, self.pc, self.cycles = a, x, y, sp, p | 0x20, 0, 0
        self.log = []                           # (cycle, "r" or "w", address, value)

    def fetch(self):
        if self.pc not in self.mem:
            raise Stop("execution runs into $%04x" % self.pc)
        b = self.mem[self.pc]
        self.pc = self.pc + 1 & 0xffff
        return b

    def rd(self, a):
        b = self.mem.get(a, 0)
        self.log.append((self.cycles, "r", a, b))
        return b

    def wr(self, a, b):
        self.log.append((self.cycles, "w", a, b))
        self.mem[a] = b

    def nz(self, b):
        self.p = self.p & ~(N | Z) | (b & N) | (0 if b else Z)
        return b

    def flag(self, f, on):
        self.p = self.p | f if on else self.p & ~f

    def push(self, b):
        self.wr(0x100 + self.sp, b)
        self.sp = self.sp - 1 & 255

    def pull(self):
        self.sp = self.sp + 1 & 255
        return self.rd(0x100 + self.sp)

    def address(self, mode):
        """Address of the operand and whether indexing crossed a page."""
        if mode == ZP:
            return self.fetch(), 0
        if mode == ZPX:
            return self.fetch() + self.x & 255, 0
        if mode == ZPY:
            return self.fetch() + self.y & 255, 0
        if mode == INX:
            z = self.fetch() + self.x & 255
            return self.rd(z) | self.rd(z + 1 & 255) << 8, 0
        if mode == INY:
            z = self.fetch()
            b = self.rd(z) | self.rd(z + 1 & 255) << 8
            return b + self.y & 0xffff, (b & 255) + self.y >> 8
        b = self.fetch()
        b |= self.fetch() << 8
        k = self.x if mode == ABX else self.y if mode == ABY else 0
        return b + k & 0xffff, (b & 255) + k >> 8

    def add(self, b):
        if self.p & D:
            raise Stop("decimal arithmetic")
        s = self.a + b + (self.p & C)
        self.flag(V, ~(self.a ^ b) & (self.a ^ s) & 0x80)
        self.flag(C, s > 255)
        self.a = self.nz(s & 255)

    def compare(self, r, b):
        self.flag(C, r >= b)
        self.nz(r - b & 255)

    def step(self):
        at = self.pc
        op = self.fetch()
        if op not in OPS:
            raise Stop("opcode $%02x at $%04x" % (op, at))
        name, mode, cyc = OPS[op]
        if isinstance(name, tuple):
            d = self.fetch()
            if bool(self.p & name[1]) == bool(name[2]):
                t = self.pc + (d - 256 if d > 127 else d) & 0xffff
                cyc += 1 + ((t ^ self.pc) >> 8 != 0)
                self.pc = t
            self.cycles += cyc
            return
        self.cycles += cyc
        if mode == IMP:
            self.implied(name)
        elif name == "jmp":
            a, _ = self.address(ABS)
            self.pc = a if mode == ABS else self.rd(a) | self.rd(a & 0xff00 | a + 1 & 255) << 8
        elif name == "jsr":
            a, _ = self.address(ABS)
            r = self.pc - 1
            self.push(r >> 8 & 255)
            self.push(r & 255)
            self.pc = a
        elif name in ("sta", "stx", "sty", "sax"):
            a, _ = self.address(mode)
            self.wr(a, {"sta": self.a, "stx": self.x, "sty": self.y, "sax": self.a & self.x}[name])
        elif name in ("asl", "rol", "lsr", "ror", "dec", "inc"):
            a, b = None, self.a
            if mode != ACC:
                a, _ = self.address(mode)
                b = self.rd(a)
            c = self.p & C
            if name in ("asl", "rol"):
                self.flag(C, b & 0x80)
                b = b << 1 & 255 | (c if name == "rol" else 0)
            elif name in ("lsr", "ror"):
                self.flag(C, b & 1)
                b = b >> 1 | (c << 7 if name == "ror" else 0)
            else:
                b = b + (1 if name == "inc" else -1) & 255
            self.nz(b)
            if a is None:
                self.a = b
            else:
                self.wr(a, b)
        else:
            if mode == IMM:
                b = self.fetch()
            else:
                a, cross = self.address(mode)
                self.cycles += cross
                b = self.rd(a)
            if name in ("lda", "ldx", "ldy"):
                setattr(self, name[2], self.nz(b))
            elif name == "lax":
                self.a = self.x = self.nz(b)
            elif name == "lxa":
                if b:
                    raise Stop("LXA with an operand other than 0 depends on the chip")
                self.a = self.x = self.nz(0)
            elif name in ("ora", "and", "eor"):
                self.a = self.nz({"ora": self.a | b, "and": self.a & b, "eor": self.a ^ b}[name])
            elif name == "adc":
                self.add(b)
            elif name == "sbc":
                self.add(b ^ 255)
            elif name in ("cmp", "cpx", "cpy"):
                self.compare({"cmp": self.a, "cpx": self.x, "cpy": self.y}[name], b)
            elif name == "bit":
                self.p = self.p & ~(N | V | Z) | b & (N | V) | (0 if b & self.a else Z)

    def implied(self, name):
        if name in ("clc", "sec", "cli", "sei", "clv", "cld", "sed"):
            self.flag({"c": C, "i": I, "v": V, "d": D}[name[2]], name[0] == "s")
        elif name == "txs":
            self.sp = self.x
        elif name == "tsx":
            self.x = self.nz(self.sp)
        elif name[0] == "t":
            setattr(self, name[2], self.nz(getattr(self, name[1])))
        elif name in ("dex", "dey", "inx", "iny"):
            setattr(self, name[2], self.nz(getattr(self, name[2]) + (1 if name[0] == "i" else -1) & 255))
        elif name == "pha":
            self.push(self.a)
        elif name == "php":
            self.push(self.p | B)
        elif name == "pla":
            self.a = self.nz(self.pull())
        elif name == "plp":
            self.p = self.pull() & ~B | 0x20
        elif name == "rts":
            a = self.pull()
            self.pc = (a | self.pull() << 8) + 1 & 0xffff

    def run(self, start, end, limit=20000):
        """Executes from start until the program counter is at end."""
        self.pc = start
        for _ in range(limit):
            if self.pc == end:
                return self
            self.step()
        raise Stop("no end after %d instructions" % limit)
