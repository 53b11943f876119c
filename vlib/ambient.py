"""Circumstances that most scenarios do not care about, set at random at their beginning: whatever the machine looks
like otherwise, the property holds.  Nothing here restricts or redirects what a scenario does by itself."""
import random
from . import asm


def low_privilege(s):
    return any(l.startswith("priv ") and l != "priv 3" for l in s.lines) or any(
        l[0] == "m" and ("73002030" in l or "73002010" in l) for l in s.lines)


def ambient(s, seed):
    r = random.Random("%s-%s" % (seed, s.name))
    if r.random() < .5 or s.cfg.host:
        return
    spins = any(l[0] == "J" for l in s.lines)
    pokes = []

    def csr(a, v):
        pokes.append("c %x %x" % (a, v & (asm.M32 if s.xlen == 32 else asm.M64)))
    w = lambda: r.getrandbits(r.choice((1, 8, 12, 32, 64)))
    if not spins:
        ie, ip = (r.choice((0, 0xaaa, 1 << r.randrange(12), w())) for _ in range(2))
        if low_privilege(s):
            ie &= ~0xa0                          # (the timer interrupts are pending from the start)
            ip &= ~ie
        csr(0x304, ie)
        csr(0x344, ip)
        if r.random() < .3:
            csr(0x300, w() & ~0x2008a)           # not MPRV, MPIE, SPIE.., MIE, SIE
    for a in (0x340, 0x140, 0x341, 0x141, 0x342, 0x142, 0x343, 0x143, 0x306, 0x106, 0xb00, 0xb02, 0x30a, 0x320):
        if r.random() < .5:
            csr(a, w())
    for i in range(16):
        if r.random() < .3:
            csr(0x3b0 + i, w())                  # the entries are off
    if r.random() < .5:
        n = r.randrange(4 if s.xlen == 32 else 2)
        csr(0x3a0 + (n if s.xlen == 32 else 2 * n), int.from_bytes(bytes(r.choice((0, 7, 3, 1)) for _ in range(8)), "little"))
    if r.random() < .5:
        for i in range(r.randrange(1, 4)):
            # a trigger for no privilege level
            csr(0x7a0, r.randrange(8))
            csr(0x7a1, 2 << (s.xlen - 4) | r.randrange(8) | r.choice((0, 1 << 27)))
            csr(0x7a2, r.choice((0x80003000, 0x80001000, 0x10000000)))
        csr(0x7a0, r.randrange(8))
    s.lines[:0] = pokes


HIGH = {32: 0x40000000, 64: 0xffffffc000000000}      # added to an address in DRAM
ROOT = 0x80040000


def highhalf(s, seed):
    """the same instructions in S-mode, paging on, at (and partly on data at) high virtual addresses"""
    r = random.Random("high-%s-%s" % (seed, s.name))
    if (r.random() > .25 and s.hi != "always") or s.cfg.base != 0x80000000 or any(
            l[0] in "JO" or l.startswith(("c 180", "c 300", "c 7a", "c 3a", "c 302")) for l in s.lines):
        return
    high = HIGH[s.xlen]
    m = asm.M32 if s.xlen == 32 else asm.M64
    leaf = lambda pa: pa >> 12 << 10 | r.choice((0xcf, 0xef))
    if s.xlen == 32:
        pte = {i: leaf(i << 22) for i in (0, 8, 0x30, 0x40, 0x200, 0x3ff)}
        pte[0x200 + 0x100] = leaf(0x80000000)
        size, satp = 4, 1 << 31 | ROOT >> 12
    else:
        pte = {i: leaf(i << 30) for i in (0, 2, 3)}
        pte[0x102] = leaf(0x80000000)
        pte[0x1ff] = leaf(0xc0000000)
        size, satp = 8, 8 << 60 | ROOT >> 12
    out = ["m %x %s" % (ROOT - 0x80000000 + i * size, v.to_bytes(size, "little").hex()) for i, v in pte.items()]
    out.append("c 180 %x" % satp)
    group = []
    for l in s.lines:
        group.append(l)
        if l[0] == "R":
            if "priv 3" not in group and any(g.startswith("pc ") for g in group):
                new = ["priv 1"]
                for g in group:
                    w = g.split()
                    if w[0] == "priv":
                        continue
                    if w[0] == "pc" or (w[0] == "x" and r.random() < .5):
                        v = int(w[-1], 16)
                        if 0x80000000 <= v < 0x80010000:
                            g = " ".join(w[:-1] + ["%x" % (v + high & m)])
                        elif 0xfffffff0 <= v <= 0xffffffff:
                            g = " ".join(w[:-1] + ["%x" % (v + 0xffffffff00000000 & m)])
                    new.append(g)
                group = new
            out += group
            group = []
    s.lines = out + group
