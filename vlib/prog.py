"""Whole guest programs with labels."""
from .asm import *

ZERO, RA, SP = 0, 1, 2
T0, T1, T2, S0, S1, A0, A1, A2, A3, A4, A5, A6, A7 = 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17
S2, S3, S4, S5, T3, T4, T5, T6 = 18, 19, 20, 21, 28, 29, 30, 31


class Prog:
    def __init__(self, xlen, tohost=0x80010000):
        self.xlen, self.items, self.size, self.labels, self.tohost = xlen, [], 0, {}, tohost

    def __call__(self, *insts):
        for i in insts:
            if isinstance(i, (list,)):
                self(*i)
                continue
            self.items.append((self.size, i))
            self.size += 2 if isinstance(i, tuple) else 4
        return self

    def label(self, name):
        self.labels[name] = self.size
        return self

    def br(self, f3, a, b, name):
        return self._fix(lambda at: b_type(f3, a, b, self.labels[name] - at), 4)

    def beq(self, a, b, name): return self.br(0, a, b, name)
    def bne(self, a, b, name): return self.br(1, a, b, name)

    def j(self, name, rd=0):
        return self._fix(lambda at: jal(rd, self.labels[name] - at), 4)

    def _fix(self, f, n):
        self.items.append((self.size, f))
        self.size += n
        return self

    def li(self, rd, v):
        return self(li(rd, v, self.xlen))

    def la(self, rd, name):
        def hi(at):
            d = self.labels[name] - at
            return auipc(rd, (d + 0x800) >> 12)

        def lo(at):
            d = self.labels[name] - (at - 4)
            return addi(rd, rd, (d & 0xfff) - (0x1000 if d & 0x800 else 0))
        return self._fix(hi, 4)._fix(lo, 4)

    def align(self, n):
        while self.size % n:
            self((1, 16))
        return self

    def putc(self, reg, tmp=T6):
        return self(lui(tmp, 0x10000), store(0, tmp, reg, 0))

    def puts(self, text):
        for ch in text.encode():
            self(addi(T5, 0, ch)).putc(T5)
        return self

    def dump(self, reg):
        """the register, least significant byte first"""
        self(addi(T5, reg, 0))
        for i in range(self.xlen // 8):
            self.putc(T5)
            self(8 << 20 | T5 << 15 | 5 << 12 | T5 << 7 | 0x13)
        return self

    def exit(self, code=0):
        self.li(T6, self.tohost).li(T5, code << 1 | 1)
        return self(store(2, T6, T5, 0), SELF)

    def csrw(self, num, reg): return self(csrrw(0, num, reg))
    def csrr(self, reg, num): return self(csrrs(reg, num, 0))

    def bytes(self):
        out = b""
        for at, i in self.items:
            if callable(i):
                i = i(at)
            out += code([i])
        assert len(out) == self.size
        return out
