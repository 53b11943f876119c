"""Scenario generators shared by the checks."""
import random
from . import asm
from .core import Scen

CODE = 0x80001000        # where single instructions are placed
DATA = 0x80003000        # data window
VEC = 0x80000100         # trap vector
M32, M64 = asm.M32, asm.M64


def mask(xlen):
    return M32 if xlen == 32 else M64


SPECIAL = sorted({0, 1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0x7fff, 0x8000, 0xffff, 0x10000,
                  0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x55555555, 0xaaaaaaaa,
                  0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, M64, M64 - 1, M64 - 0x7fffffff,
                  0xffffffff00000000, 0xffffffff7fffffff, 0x5555555555555555, 0x123456789abcdef0})


def word(r, xlen):
    k = r.randrange(10)
    if k < 5:
        v = r.choice(SPECIAL)
    elif k < 6:
        v = 1 << r.randrange(64)
    elif k < 7:
        v = -(1 << r.randrange(64))
    elif k < 8:
        v = r.getrandbits(r.randrange(1, 65))
    else:
        v = r.getrandbits(64)
    if r.random() < .1:
        v += r.choice((-1, 1))
    return v & mask(xlen)


class Packer:
    """packs single-instruction cases into scenarios"""

    def __init__(self, c, r, prefix="t", per=60, wins=((0x1000, 0x20), (0x3000, 0x100)), hi=False):
        self.hi = hi
        self.c, self.r, self.prefix, self.per, self.wins = c, r, prefix, per, wins
        self.cur = {}
        self.n = {32: 0, 64: 0}
        self.out = []
        self.k = 0
        self.distinct = set()

    def scen(self, xlen):
        """the current scenario; a new one starts with random registers"""
        s = self.cur.get(xlen)
        if s is None or self.n[xlen] >= self.per:
            s = Scen("%s%d" % (self.prefix, self.k), xlen)
            s.hi = self.hi
            self.k += 1
            for w in self.wins:
                s.win(*w)
            s.csr(0x305, VEC)
            s.csr(0x105, VEC + 0x80)
            s.regs = [0] * 32
            for i in range(1, 32):
                v = word(self.r, xlen)
                s.x(i, v)
            self.cur[xlen] = s
            self.n[xlen] = 0
            self.out.append(s)
        self.n[xlen] += 1
        return s

    def note(self, key):
        self.distinct.add(key)


def regs3(r):
    """rd, rs1, rs2 with frequent aliasing and x0"""
    rd, a, b = (r.randrange(32) for _ in range(3))
    k = r.randrange(10)
    if k == 0:
        a = rd
    elif k == 1:
        b = rd
    elif k == 2:
        a = b = rd
    elif k == 3:
        b = a
    if r.random() < .04:
        rd = 0
    if r.random() < .04:
        a = 0
    if r.random() < .04:
        b = 0
    return rd, a, b


def code_addr(r):
    return CODE + 2 * r.randrange(14)


# ---------------------------------------------------------------- page tables

TABLES = {2: 0x80010000, 1: 0x80011000, 0: 0x80012000}
ALT = {2: 0x80014000, 1: 0x80015000, 0: 0x80016000}


def top(xlen):
    return 1 if xlen == 32 else 2


def satp(xlen, root=None, asid=0, tables=TABLES):
    root = tables[top(xlen)] if root is None else root
    if xlen == 32:
        return 1 << 31 | (asid & 0x1ff) << 22 | root >> 12
    return 8 << 60 | (asid & 0xffff) << 44 | root >> 12


def vpn(xlen, va, level):
    return va >> (12 + 10 * level) & 0x3ff if xlen == 32 else va >> (12 + 9 * level) & 0x1ff


def span(xlen, level):
    """bytes mapped by a leaf at this level"""
    return 1 << (12 + (10 if xlen == 32 else 9) * level)


def pte_bytes(xlen, v):
    return (v & mask(xlen)).to_bytes(4 if xlen == 32 else 8, "little")


def put_pte(s, xlen, table, index, v):
    s.mem(table + index * (4 if xlen == 32 else 8), pte_bytes(xlen, v))


def pte(pa, flags):
    return pa >> 12 << 10 | flags


def chain(s, xlen, va, level, leaf, tables=TABLES):
    """the entries leading to, and the leaf entry of, a mapping of va"""
    for l in range(top(xlen), level, -1):
        put_pte(s, xlen, tables[l], vpn(xlen, va, l), pte(tables[l - 1], 1))
    put_pte(s, xlen, tables[level], vpn(xlen, va, level), leaf)


def random_va(r, xlen):
    """a canonical page base; a small pool of indices makes entries get reused"""
    pool = (0, 1, 2, 3, 0xff, 0x100, 0x1ff, 0x155)
    if xlen == 32:
        return (r.choice(pool + (0x200, 0x3ff)) << 22 | r.choice(pool) << 12) & M32
    v = r.choice(pool) << 30 | r.choice(pool) << 21 | r.choice(pool) << 12
    return (v | 0xffffff8000000000) & M64 if v >> 38 & 1 else v


MPP = {0: 0, 1: 1 << 11, 3: 3 << 11}
MIE_, SIE_, MPIE, SPIE, SPP, MPRV, SUM, MXR, TVM, TW, TSR = (
    1 << 3, 1 << 1, 1 << 7, 1 << 5, 1 << 8, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22)
V_, R_, W_, X_, U_, G_, A_, D_ = (1 << i for i in range(8))
