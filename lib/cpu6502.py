"""A 6502 with cycle counts: documented instructions, the undocumented NOPs and LXA."""

N, V, B, D, I, Z, C = 0x80, 0x40, 0x10, 0x08, 0x04, 0x02, 0x01


class Stop(Exception):
    """The code does something outside this model."""


# mnemonic, addressing mode, cycles; a page crossing costs one more where the mode name ends in +
OPS = {}


def _add(text):
    for item in text.split():
        op, mne, mode, cyc = item.split(":")
        OPS[int(op, 16)] = (mne, mode, int(cyc))


for _m, _b in (("ora", 0x00), ("and", 0x20), ("eor", 0x40), ("adc", 0x60), ("lda", 0xA0), ("cmp", 0xC0), ("sbc", 0xE0)):
    for _o, _a, _c in ((9, "imm", 2), (5, "zp", 3), (0x15, "zpx", 4), (0xD, "abs", 4), (0x1D, "abx+", 4), (0x19, "aby+", 4),
                       (1, "inx", 6), (0x11, "iny+", 5)):
        OPS[_b + _o] = (_m, _a, _c)
for _m, _b in (("asl", 0x00), ("rol", 0x20), ("lsr", 0x40), ("ror", 0x60), ("dec", 0xC0), ("inc", 0xE0)):
    for _o, _a, _c in ((6, "zp", 5), (0x16, "zpx", 6), (0xE, "abs", 6), (0x1E, "abx", 7)):
        OPS[_b + _o] = (_m, _a, _c)
_add("0a:asl:acc:2 2a:rol:acc:2 4a:lsr:acc:2 6a:ror:acc:2 85:sta:zp:3 95:sta:zpx:4 8d:sta:abs:4 9d:sta:abx:5 99:sta:aby:5 "
     "81:sta:inx:6 91:sta:iny:6 86:stx:zp:3 96:stx:zpy:4 8e:stx:abs:4 84:sty:zp:3 94:sty:zpx:4 8c:sty:abs:4 "
     "a2:ldx:imm:2 a6:ldx:zp:3 b6:ldx:zpy:4 ae:ldx:abs:4 be:ldx:aby+:4 a0:ldy:imm:2 a4:ldy:zp:3 b4:ldy:zpx:4 ac:ldy:abs:4 "
     "bc:ldy:abx+:4 e0:cpx:imm:2 e4:cpx:zp:3 ec:cpx:abs:4 c0:cpy:imm:2 c4:cpy:zp:3 cc:cpy:abs:4 24:bit:zp:3 2c:bit:abs:4 "
     "10:bpl:rel:2 30:bmi:rel:2 50:bvc:rel:2 70:bvs:rel:2 90:bcc:rel:2 b0:bcs:rel:2 d0:bne:rel:2 f0:beq:rel:2 "
     "4c:jmp:abs:3 6c:jmp:ind:5 20:jsr:abs:6 60:rts:imp:6 18:clc:imp:2 38:sec:imp:2 58:cli:imp:2 78:sei:imp:2 b8:clv:imp:2 "
     "d8:cld:imp:2 f8:sed:imp:2 aa:tax:imp:2 8a:txa:imp:2 a8:tay:imp:2 98:tya:imp:2 ba:tsx:imp:2 9a:txs:imp:2 e8:inx:imp:2 "
     "ca:dex:imp:2 c8:iny:imp:2 88:dey:imp:2 48:pha:imp:3 68:pla:imp:4 08:php:imp:3 28:plp:imp:4 ea:nop:imp:2 "
     "1a:nop:imp:2 3a:nop:imp:2 5a:nop:imp:2 7a:nop:imp:2 da:nop:imp:2 fa:nop:imp:2 80:nop:imm:2 82:nop:imm:2 89:nop:imm:2 "
     "c2:nop:imm:2 e2:nop:imm:2 04:nop:zp:3 44:nop:zp:3 64:nop:zp:3 14:nop:zpx:4 34:nop:zpx:4 54:nop:zpx:4 74:nop:zpx:4 "
     "d4:nop:zpx:4 f4:nop:zpx:4 0c:nop:abs:4 1c:nop:abx+:4 3c:nop:abx+:4 5c:nop:abx+:4 7c:nop:abx+:4 dc:nop:abx+:4 "
     "fc:nop:abx+:4 ab:lxa:imm:2")

FLAG = {"bpl": (N, 0), "bmi": (N, N), "bvc": (V, 0), "bvs": (V, V), "bcc": (C, 0), "bcs": (C, C), "bne": (Z, 0), "beq": (Z, Z)}


class Cpu:
    def __init__(self, mem, a=0, x=0, y=0, s=0xFF, p=0):
        self.mem, self.a, self.x, self.y, self.s, self.p = mem, a, x, y, s, p | 0x30
        self.pc = self.cycles = 0
        self.writes = []

    def rd(self, ad):
        return self.mem[ad & 0xFFFF]

    def wr(self, ad, v):
        ad &= 0xFFFF
        self.mem[ad] = v
        self.writes.append((ad, v))

    def nz(self, v):
        v &= 255
        self.p = self.p & ~(N | Z) | (v & N) | (0 if v else Z)
        return v

    def carry(self, c):
        self.p = self.p & ~C | (C if c else 0)

    def addr(self, mode):
        """-> address, page crossed"""
        pc = self.pc
        if mode == "imm":
            self.pc += 1
            return pc, False
        if mode in ("zp", "zpx", "zpy"):
            self.pc += 1
            return self.rd(pc) + {"zp": 0, "zpx": self.x, "zpy": self.y}[mode] & 255, False
        if mode == "inx":
            self.pc += 1
            z = self.rd(pc) + self.x
            return self.rd(z & 255) | self.rd(z + 1 & 255) << 8, False
        if mode == "iny":
            self.pc += 1
            z = self.rd(pc)
            b = self.rd(z) | self.rd(z + 1 & 255) << 8
            return b + self.y & 0xFFFF, (b + self.y ^ b) >> 8 != 0
        self.pc += 2
        b = self.rd(pc) | self.rd(pc + 1) << 8
        if mode == "ind":
            return self.rd(b) | self.rd(b & 0xFF00 | b + 1 & 255) << 8, False
        i = {"abs": 0, "abx": self.x, "aby": self.y}[mode]
        return b + i & 0xFFFF, (b + i ^ b) >> 8 != 0

    def step(self):
        op = self.rd(self.pc)
        if op not in OPS:
            raise Stop("opcode %02x at %04x" % (op, self.pc))
        m, mode, cyc = OPS[op]
        self.pc += 1
        ad = None
        if mode == "rel":
            off = self.rd(self.pc)
            self.pc += 1
            mask, want = FLAG[m]
            if self.p & mask == want:
                to = self.pc + (off - 256 if off > 127 else off)
                cyc += 1 + ((to ^ self.pc) >> 8 != 0)
                self.pc = to
        elif mode not in ("imp", "acc"):
            ad, cross = self.addr(mode.rstrip("+"))
            if cross and mode.endswith("+"):
                cyc += 1
        self.cycles += cyc
        self.run_op(m, ad)
        self.pc &= 0xFFFF

    def run_op(self, m, ad):
        if m in FLAG or m == "nop":
            return
        if m in ("lda", "ldx", "ldy"):
            setattr(self, m[2], self.nz(self.rd(ad)))
        elif m in ("sta", "stx", "sty"):
            self.wr(ad, getattr(self, m[2]))
        elif m == "lxa":
            if self.rd(ad):
                raise Stop("LXA of a value other than 0 is not predictable")
            self.a = self.x = self.nz(0)
        elif m in ("ora", "and", "eor"):
            v = self.rd(ad)
            self.a = self.nz(self.a | v if m == "ora" else self.a & v if m == "and" else self.a ^ v)
        elif m in ("adc", "sbc"):
            if self.p & D:
                raise Stop("decimal arithmetic")
            v = self.rd(ad) ^ (255 if m == "sbc" else 0)
            r = self.a + v + (self.p & C)
            self.carry(r > 255)
            self.p = self.p & ~V | (V if ~(self.a ^ v) & (self.a ^ r) & 0x80 else 0)
            self.a = self.nz(r)
        elif m in ("cmp", "cpx", "cpy"):
            r = (self.a if m == "cmp" else getattr(self, m[2])) - self.rd(ad)
            self.carry(r >= 0)
            self.nz(r)
        elif m == "bit":
            v = self.rd(ad)
            self.p = self.p & ~(N | V | Z) | v & (N | V) | (0 if v & self.a else Z)
        elif m in ("asl", "lsr", "rol", "ror"):
            v = self.a if ad is None else self.rd(ad)
            old = self.p & C
            if m in ("asl", "rol"):
                self.carry(v & 0x80)
                v = v << 1 | (old if m == "rol" else 0)
            else:
                self.carry(v & 1)
                v = v >> 1 | (old << 7 if m == "ror" else 0)
            v = self.nz(v)
            if ad is None:
                self.a = v
            else:
                self.wr(ad, v)
        elif m in ("inc", "dec"):
            self.wr(ad, self.nz(self.rd(ad) + (1 if m == "inc" else -1)))
        elif m in ("inx", "iny", "dex", "dey"):
            setattr(self, m[2], self.nz(getattr(self, m[2]) + (1 if m[0] == "i" else -1)))
        elif m in ("tax", "tay", "txa", "tya", "tsx"):
            setattr(self, m[2], self.nz(getattr(self, m[1])))
        elif m == "txs":
            self.s = self.x
        elif m in ("clc", "sec", "cli", "sei", "clv", "cld", "sed"):
            f = {"c": C, "i": I, "v": V, "d": D}[m[2]]
            self.p = self.p & ~f | (f if m[0] == "s" else 0)
        elif m in ("pha", "php"):
            self.push(self.a if m == "pha" else self.p | 0x30)
        elif m == "pla":
            self.a = self.nz(self.pull())
        elif m == "plp":
            self.p = self.pull() | 0x30
        elif m == "jmp":
            self.pc = ad
        elif m == "jsr":
            self.push(self.pc - 1 >> 8)
            self.push(self.pc - 1 & 255)
            self.pc = ad
        elif m == "rts":
            self.pc = (self.pull() | self.pull() << 8) + 1

    def push(self, v):
        self.wr(0x100 + self.s, v & 255)
        self.s = self.s - 1 & 255

    def pull(self):
        self.s = self.s + 1 & 255
        return self.rd(0x100 + self.s)

    def run(self, start, end, limit=20000):
        self.pc = start
        while self.pc != end:
            self.step()
            limit -= 1
            if not limit:
                raise Stop("end not reached")
        return self


class Mirrored:
    """64 KB in which page 1 is the same memory as page 0 (Atari 2600)."""

    def __init__(self, image, org, fill=0xAA):
        self.b = bytearray([fill]) * 65536
        for i, c in enumerate(image):
            self.b[org + i & 0xFFFF] = c

    def at(self, ad):
        return ad & 0xFF if ad < 0x200 else ad

    def __getitem__(self, ad):
        return self.b[self.at(ad)]

    def __setitem__(self, ad, v):
        self.b[self.at(ad)] = v
