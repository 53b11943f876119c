"""The instruction set: C01 to C09."""
from . import asm, gen
from .checks import check, mc, rng, XL
from .gen import Packer, word, regs3, mask, CODE, DATA, VEC
from .core import Scen


# ---------------------------------------------------------------- C01

OPS = [(f3, f7) for f3 in range(8) for f7 in (0,)] + [(0, 32), (5, 32)]
OPSW = [(0, 0), (1, 0), (5, 0), (0, 32), (5, 32)]


def alu_case(p, r, xlen, inst, a, va, b=None, vb=None):
    s = p.scen(xlen)
    at = gen.code_addr(r)
    s.pc(at).mem(at, asm.w32(inst))
    s.x(a, va)
    if b is not None and b != a:
        s.x(b, vb)
    s.run(1)


@check("C01")
def c01(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, hi=True)
    reps = 40 if not c.thorough() else 3000
    for xlen in XL:
        sh = 32 if xlen == 32 else 64
        for (f3, f7) in OPS:
            for _ in range(reps * 4):
                rd, a, b = regs3(r)
                va, vb = word(r, xlen), word(r, xlen)
                alu_case(p, r, xlen, asm.r_type(0x33, f3, f7, rd, a, b), a, va, b, vb)
                p.note((xlen, "op", f3, f7, va, vb))
        if xlen == 64:
            for (f3, f7) in OPSW:
                for _ in range(reps * 4):
                    rd, a, b = regs3(r)
                    va, vb = word(r, xlen), word(r, xlen)
                    alu_case(p, r, xlen, asm.r_type(0x3b, f3, f7, rd, a, b), a, va, b, vb)
                    p.note((xlen, "opw", f3, f7, va, vb))
        # the whole lattice of special operands on the comparisons and subtraction
        for (f3, f7) in [(2, 0), (3, 0), (0, 32), (0, 0)]:
            sp = gen.SPECIAL if c.thorough() else r.sample(gen.SPECIAL, 9)
            for va in sp:
                for vb in sp:
                    alu_case(p, r, xlen, asm.r_type(0x33, f3, f7, 3, 1, 2), 1, va & mask(xlen), 2, vb & mask(xlen))
                    p.note((xlen, "lat", f3, f7, va, vb))
        for f3 in (0, 2, 3, 4, 6, 7):
            for _ in range(reps * 4):
                rd, a, _b = regs3(r)
                va, imm = word(r, xlen), r.choice((0, 1, -1, 2047, -2048, r.randrange(-2048, 2048)))
                alu_case(p, r, xlen, asm.i_type(0x13, f3, rd, a, imm), a, va)
                p.note((xlen, "imm", f3, va, imm))
        # every shift amount, by immediate and by register
        for n in range(sh):
            for (f3, hi) in ((1, 0), (5, 0), (5, 0x400)):
                va = word(r, xlen)
                rd, a, b = regs3(r)
                alu_case(p, r, xlen, (hi | n) << 20 | a << 15 | f3 << 12 | rd << 7 | 0x13, a, va)
                if a != b:
                    alu_case(p, r, xlen, asm.r_type(0x33, f3, hi >> 5, rd, a, b), a, va, b,
                             n | (r.getrandbits(58) << (5 if xlen == 32 else 6)))
                p.note((xlen, "sh", f3, hi, va, n))
        if xlen == 64:
            for n in range(32):
                for (f3, hi) in ((1, 0), (5, 0), (5, 0x400)):
                    va = word(r, xlen)
                    rd, a, b = regs3(r)
                    alu_case(p, r, xlen, (hi | n) << 20 | a << 15 | f3 << 12 | rd << 7 | 0x1b, a, va)
                    if a != b:
                        alu_case(p, r, xlen, asm.r_type(0x3b, f3, hi >> 5, rd, a, b), a, va, b,
                                 n | r.getrandbits(59) << 5)
                    p.note((xlen, "shw", f3, hi, va, n))
            for _ in range(reps * 4):
                rd, a, _b = regs3(r)
                va, imm = word(r, xlen), r.choice((0, 1, -1, 2047, -2048, r.randrange(-2048, 2048)))
                alu_case(p, r, xlen, asm.i_type(0x1b, 0, rd, a, imm), a, va)
                p.note((xlen, "addiw", va, imm))
        for op in (0x37, 0x17):
            for _ in range(reps * 3):
                imm = r.choice((0, 1, 0x7ffff, 0x80000, 0xfffff, r.getrandbits(20)))
                alu_case(p, r, xlen, asm.u_type(op, r.randrange(32), imm), 0, 0)
                p.note((xlen, op, imm))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct),
              rule="one instruction per case; distinct (xlen, opcode, operand values)")


# ---------------------------------------------------------------- C02

def lattice(r, xlen, n):
    """special operands, the decisive ones always"""
    core = [0, 1, 2, 3, mask(xlen), mask(xlen) - 1, 1 << (xlen - 1), (1 << (xlen - 1)) - 1, (1 << (xlen - 1)) + 1]
    if xlen == 64:
        core += [0x80000000, 0xffffffff, 0x7fffffff, 0xffffffff80000000, 0x100000000]
    rest = [v & mask(xlen) for v in gen.SPECIAL if v & mask(xlen) not in core]
    return core + r.sample(rest, min(n, len(rest)))


@check("C02")
def c02(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, hi=True)
    reps = 150 if not c.thorough() else 15000
    for xlen in XL:
        for (op, f3s) in ((0x33, range(8)), (0x3b, (0, 4, 5, 6, 7))):
            if op == 0x3b and xlen == 32:
                continue
            sp = lattice(r, xlen, 99 if c.thorough() else 6)
            for f3 in f3s:
                for va in sp:
                    for vb in sp:
                        rd, a, b = r.choice(((3, 1, 2), (1, 1, 2), (2, 1, 2), (31, 30, 29)))
                        alu_case(p, r, xlen, asm.r_type(op, f3, 1, rd, a, b), a, va, b, vb)
                        p.note((xlen, op, f3, va, vb))
                for _ in range(reps):
                    rd, a, b = regs3(r)
                    va, vb = word(r, xlen), word(r, xlen)
                    if r.random() < .2:       # exact multiples and neighbours
                        q = r.getrandbits(r.randrange(1, xlen))
                        va = (vb * q + r.choice((-1, 0, 1))) & mask(xlen)
                    alu_case(p, r, xlen, asm.r_type(op, f3, 1, rd, a, b), a, va, b, vb)
                    p.note((xlen, op, f3, va, vb))
    if c.thorough():
        c.model("MCWord")
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct),
              rule="distinct (xlen, operation, operand values); operand lattice squared plus random")


# ---------------------------------------------------------------- C03

@check("C03")
def c03(c):
    """every 16-bit encoding, on both XLENs"""
    r = rng(c)
    c.build()
    p = Packer(c, r, per=80, wins=((0x1000, 0x40), (0x3000, 0x400)), hi=True)
    for rep in range(8 if c.thorough() else 1):
        for xlen in XL:
            halves = [h for h in range(0x10000) if h & 3 != 3]
            r.shuffle(halves)
            for h in halves:
                s = p.scen(xlen)
                if p.n[xlen] == 1:
                    s.mem(DATA, bytes(r.getrandbits(8) for _ in range(0x400)))
                # bases of loads and stores point into the data window
                quad, f3 = h & 3, h >> 13
                if quad == 0 and f3 in (2, 3, 6, 7) and r.random() < .95:
                    s.x((h >> 7 & 7) + 8, DATA + 8 * r.randrange(32) + (r.choice((0, 1, 2, 4)) if r.random() < .2 else 0))
                elif quad == 2 and f3 in (2, 3, 6, 7) and r.random() < .97:
                    s.x(2, DATA + 8 * r.randrange(32) + (r.choice((1, 2, 4)) if r.random() < .1 else 0))
                else:
                    # fresh operands; branch registers are zero half of the time
                    for i in ((h >> 7 & 7) + 8, (h >> 2 & 7) + 8, h >> 7 & 31, h >> 2 & 31):
                        if i and r.random() < .5:
                            s.x(i, 0 if f3 >= 6 and quad == 1 and r.random() < .6 else word(r, xlen))
                if r.random() < .25:
                    s.priv(r.choice((0, 1, 3)))
                at = CODE + 2 * r.randrange(16)
                s.pc(at).mem(at, asm.w16(h)).run(1)
                p.note((xlen, h))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, 16-bit encoding): all of them",
              input_space=2 * 49152, exhausted=len(p.distinct) == 2 * 49152)


# ---------------------------------------------------------------- C04

def map_for_amo(s, xlen, r, flags, pa=DATA):
    """a page of the given permissions, used from M-mode through MPRV"""
    va = gen.random_va(r, xlen)
    gen.chain(s, xlen, va, 0, gen.pte(pa & ~0xfff, flags))
    s.csr(0x180, gen.satp(xlen))
    return va


@check("C04")
def c04(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, hi=True)
    reps = 1 if not c.thorough() else 30
    ops = [f for n, f in asm.AMO.items() if n not in ("lr", "sc")]

    def case(xlen, f5, size, rd, a, b, addr, memv, vb, prv=3):
        s = p.scen(xlen)
        at = gen.code_addr(r)
        s.pc(at).mem(at, asm.w32(asm.amo(f5, size, rd, a, b, r.randrange(4))))
        off = addr & ~7
        if DATA <= off < DATA + 0x100:
            s.mem(off, (memv & gen.M64).to_bytes(8, "little"))
        s.x(b, vb)
        s.x(a, addr)
        s.priv(prv)
        s.run(1)
        return s
    for xlen in XL:
        for size in ((4,) if xlen == 32 else (4, 8)):
            for f5 in ops:
                sp = lattice(r, xlen, 30 if c.thorough() else 2)
                for m in sp:
                    for v in sp:
                        hi = r.getrandbits(32) << 32 if size == 4 else 0
                        case(xlen, f5, size, 5, 6, 7, DATA + 8 * r.randrange(8), (m & gen.M32) | hi if hi else m, v)
                        p.note((xlen, f5, size, m, v))
                for _ in range(40 * reps):
                    rd, a, b = regs3(r)
                    a = a or 6
                    addr = DATA + size * r.randrange(16)
                    case(xlen, f5, size, rd, a, b, addr, r.getrandbits(64), word(r, xlen), r.choice((3, 3, 1, 0)))
                    p.note((xlen, f5, size, "alias", rd == a, rd == b, a == b))
                # misaligned, unmapped, ROM, devices, ends of DRAM
                bad = [DATA + k for k in range(1, size)] + [
                    0, 0x1000, 0x2000000, 0x2004000, 0x200bff8, 0x200fffc, 0xc000004, 0xc002000, 0xc200000,
                    0xc200008, 0x10000000, 0x10000100, 0x7ffffffc, 0x7ffffff8, 0xfffffff8]
                if xlen == 64:
                    bad += [0x100000000, 0x180003000, 0xffffffff80003000]
                for addr in bad:
                    rd, a, b = r.choice(((5, 6, 7), (6, 6, 7), (7, 6, 7), (0, 6, 7), (6, 6, 6)))
                    case(xlen, f5, size, rd, a, b, addr, r.getrandbits(64), word(r, xlen))
                    p.note((xlen, f5, size, "at", addr))
                # page permissions, seen through MPRV
                for flags in (0xd7, 0xc7 | 0x10, 0xcf, 0xc3, 0xc5, 0x47, 0x87, 0xc6, 0xd3, 0xdf):
                    for k in range(reps):
                        s = p.scen(xlen)
                        va = map_for_amo(s, xlen, r, flags)
                        s.csr(0x300, gen.MPRV | gen.MPP[r.choice((0, 1))] | r.choice((0, gen.SUM)) | r.choice((0, gen.MXR)))
                        at = gen.code_addr(r)
                        rd, a, b = r.choice(((5, 6, 7), (6, 6, 7), (7, 6, 7)))
                        off = size * r.randrange(8) + (r.randrange(1, size) if r.random() < .2 else 0)
                        s.mem((DATA + off) & ~7, r.getrandbits(64).to_bytes(8, "little"))
                        s.priv(3).pc(at).mem(at, asm.w32(asm.amo(f5, size, rd, a, b)))
                        s.x(b, word(r, xlen)).x(a, va + off).run(1)
                        s.csr(0x300, 0).csr(0x180, 0)
                        p.note((xlen, f5, size, "page", flags))
                # physical memory protection: permissions of the region around the word
                for cfg in range(8):
                    s = p.scen(xlen)
                    at = gen.code_addr(r)
                    s.csr(0x3b0, DATA >> 2).csr(0x3b1, (DATA + 0x40) >> 2).csr(0x3a0, (0x88 | cfg) << 8)
                    s.priv(3).pc(at).mem(at, asm.w32(asm.amo(f5, size, 5, 6, 7)))
                    s.x(6, DATA + r.choice((0, 0x38, 0x40, 0x48))).x(7, word(r, xlen)).run(1)
                    s.csr(0x3a0, 0)
                    p.note((xlen, f5, size, "pmp", cfg))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, AMO, width, operands or fault situation)")


# ---------------------------------------------------------------- C05

@check("C05")
def c05(c):
    """histories of reservations: LR, SC, stores, AMOs, traps, faults, batch boundaries"""
    r = rng(c)
    c.build()
    c.model("MCResv")
    scens = []
    n = 500 if not c.thorough() else 12000
    keys = set()
    for k in range(n):
        xlen = r.choice(XL)
        s = Scen("resv%d" % k, xlen)
        if r.random() < .5:
            # interrupts that are pending and enabled, but not taken
            s.csr(0x304, r.choice((0xaaa, 0x888, 0x80, 2))).csr(0x344, r.choice((0xaaa, 0x80, 2, 0x800)))
        s.win(0x3000, 0x100).win(0x1000, 0x20)
        s.csr(0x305, VEC).csr(0x105, VEC)
        s.mem(VEC, asm.w32(asm.MRET))
        s.mem(CODE + 0x100, asm.w32(asm.SELF))
        s.mem(DATA, bytes(r.getrandbits(8) for _ in range(0x100)))
        if r.random() < .5:
            # the same words also at a virtual address
            va = 0x40000000
            gen.chain(s, xlen, va, 0, gen.pte(DATA, 0xd7))
            s.csr(0x180, gen.satp(xlen))
        else:
            va = None
        cnt, hist = 0, []
        pool = [DATA + 8 * j for j in range(3)] + [DATA + 4]
        last = pool[0]
        for _ in range(r.randrange(4, 28)):
            act = r.choice(("lr", "lr", "lr", "sc", "sc", "sc", "sc", "st", "amo", "trap", "badsc", "badlr", "devsc",
                            "spin", "bound", "alu", "mprv", "priv", "fault", "pagefault", "irq"))
            inst = None
            size = 4 if xlen == 32 else r.choice((4, 8))
            addr = r.choice(pool) if r.random() < .4 else last
            if act in ("lr", "sc") and size == 8:
                addr &= ~7
            if act == "lr":
                inst, last = asm.amo(2, size, r.choice((5, 6, 0)), 6, 0, r.randrange(4)), addr
            elif act == "sc":
                inst = asm.amo(3, size, *r.choice(((5, 6, 7), (6, 6, 7), (7, 6, 7), (5, 6, 6), (0, 6, 7))), r.randrange(4))
            elif act == "st":
                inst = asm.store(2, 6, 7, 0)
            elif act == "amo":
                inst = asm.amo(r.choice((0, 1, 4)), 4, 5, 6, 7)
            elif act == "trap":
                inst = r.choice((asm.ECALL, asm.EBREAK, 0xffffffff))
            elif act == "badsc":
                addr = r.choice((addr + 1, addr + 2, 0, 0x1000, 0x7ffffff8))
                inst = asm.amo(3, size, 5, 6, 7)
            elif act == "badlr":
                addr = r.choice((addr + 1, addr + 2, 0, 0x10000000))
                inst = asm.amo(2, size, 5, 6, 0)
            elif act == "devsc":
                # a reservation on a device word
                addr = r.choice((0x2004000, 0xc000008, 0x1000))
                inst = asm.amo(2, 4, 5, 6, 0)
                last = addr
            elif act == "alu":
                inst = asm.addi(8, 8, 1)
            elif act == "mprv" and va is not None:
                s.csr(0x300, gen.MPRV | gen.MPP[0])
                addr = va + (last & 0xfff)
                inst = asm.amo(r.choice((2, 3)), 4, 5, 6, 0)
            elif act == "fault":
                # an access to an address where nothing is
                addr = r.choice((0, 0x7ffffff8, 0x40000000, 0x10000008))
                inst = r.choice((asm.load(2, 5, 6, 0), asm.store(2, 6, 7, 0), asm.amo(0, 4, 5, 6, 7)))
            elif act == "pagefault" and va is not None:
                s.csr(0x300, gen.MPRV | gen.MPP[r.choice((0, 1))])
                addr = va + 0x1000 + (last & 0xfff) if r.random() < .7 else last
                inst = r.choice((asm.load(2, 5, 6, 0), asm.store(2, 6, 7, 0), asm.amo(0, 4, 5, 6, 7), asm.amo(2, 4, 5, 6, 0),
                                 asm.amo(3, 4, 5, 6, 7)))
            elif act == "irq":
                # an interrupt taken, its handler returning to the next instruction
                i = r.choice((1, 5, 9))
                s.csr(0x303, r.choice((0, 0x222))).csr(0x304, 1 << i).csr(0x344, 1 << i)
                s.csr(0x300, gen.MIE_ | gen.SIE_).priv(r.choice((1, 3))).pc(CODE + 0x100).run(1)
                s.csr(0x304, 0).csr(0x344, 0).run(1).csr(0x300, 0).priv(3)
                cnt += 2
            elif act == "priv":
                s.priv(r.choice((0, 1, 3)))
            if inst is not None:
                at = gen.code_addr(r)
                s.pc(at).mem(at, asm.w32(inst)).x(7, r.getrandbits(64)).x(6, addr).run(1)
                cnt += 1
                if act in ("mprv", "pagefault"):
                    s.csr(0x300, 0)
                if act in ("trap", "pagefault", "fault") and r.random() < .7:
                    s.run(1)
                    cnt += 1
                    s.priv(3)
            elif act in ("spin", "bound"):
                left = 5000 - cnt % 5000
                m = r.randrange(1, 40) if act == "spin" else r.choice(
                    (left - 2, left - 1, left, left + 1, left + 2, left + 5000))
                if m > 0:
                    s.priv(3).pc(CODE + 0x100).spin(m)
                    cnt += m
            hist.append(act)
        keys.add(tuple(hist))
        scens.append(s)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct histories of LR/SC/store/AMO/trap/fault/boundary actions")


# ---------------------------------------------------------------- C06

@check("C06")
def c06(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, wins=((0x1000, 0x40),), hi=True)
    reps = 1 if not c.thorough() else 25

    high = Packer(c, r, prefix="h", wins=((0x1000, 0x40),), hi="always")

    def case(xlen, inst, pc, regs, prv=None, p=p):
        s = p.scen(xlen)
        for i, v in regs:
            s.x(i, v)
        s.priv(r.choice((1, 3)) if prv is None else prv).pc(pc).mem(pc & gen.M32, asm.code([inst])).run(1)
        p.note((xlen, inst, pc & 0xffff, p is high))
    for xlen in XL:
        last = 0xfffffffc
        pcs = [CODE, CODE + 2, 0x80000000, last, last - 2, last - 4]
        # JAL: every immediate bit, extremes, zero
        imms = {0, 2, 4, -2, -4, 0xffffe, -0x100000} | {1 << k for k in range(1, 20)} | {-(1 << k) for k in range(1, 21)}
        imms |= {r.randrange(-0x100000, 0x100000) & ~1 for _ in range(60 * reps)}
        for imm in sorted(imms):
            for rd in (0, 1, r.randrange(32)):
                case(xlen, asm.jal(rd, imm), r.choice(pcs), [], r.choice((0, 1, 3)))
        # JALR: register equal to the link register, odd targets, wrapping sums
        for _ in range(250 * reps):
            rd, a, _b = regs3(r)
            imm = r.choice((0, 1, -1, 2047, -2048, r.randrange(-2048, 2048)))
            v = r.choice((CODE, CODE + 1, DATA, word(r, xlen), mask(xlen), 0))
            case(xlen, asm.jalr(rd, a, imm), r.choice(pcs), [(a, v)], r.choice((0, 1, 3)))
        for pc in (CODE, CODE + 2):
            for f3 in (0, 1, 4, 5, 6, 7):
                # to itself, taken and not
                for va, vb in ((1, 1), (1, 2), (2, 1), (mask(xlen), 1)):
                    case(xlen, asm.b_type(f3, 1, 2, 0), pc, [(1, va), (2, vb)])
            case(xlen, asm.jal(0, 0), pc, [])
            case(xlen, asm.jal(1, 0), pc, [])
            case(xlen, asm.jalr(0, 1, 0), pc, [(1, pc)])
            case(xlen, asm.jalr(1, 1, 0), pc, [(1, pc)])
            case(xlen, (0xa001, 16), pc, [])
            case(xlen, (0xc001, 16), pc, [(8, 0)])
            case(xlen, (0x8082, 16), pc, [(1, pc)])
            case(xlen, (0x9082, 16), pc, [(1, pc)])
        # branches: operand lattice, each offset bit
        for f3 in (0, 1, 4, 5, 6, 7):
            sp = lattice(r, xlen, 20 if c.thorough() else 1)
            for va in sp:
                for vb in sp:
                    imm = r.choice((8, -8, 4094, -4096, 0, 2, 0x800, -2))
                    case(xlen, asm.b_type(f3, 1, 2, imm), CODE, [(1, va), (2, vb)])
            for k in range(1, 13):
                for sg in (1, -1):
                    _, a, b = regs3(r)
                    case(xlen, asm.b_type(f3, a, b, sg << k), r.choice(pcs), [(a, word(r, xlen)), (b, word(r, xlen))])
        # all compressed jumps and branches
        for h in range(0x2000):
            if h % 4 == r.randrange(4) or c.thorough():
                for f3 in (1, 5, 6, 7):
                    if f3 == 1 and xlen == 64:
                        continue
                    e = f3 << 13 | h & ~3 | 1
                    if r.random() < .25 or c.thorough():
                        case(xlen, (e, 16), r.choice(pcs[:3]), [((e >> 7 & 7) + 8, r.choice((0, 0, 1, 1 << 63, 1 << 31)))])
        for rs in range(1, 32):
            for e in (0x8002, 0x9002):
                case(xlen, (e | rs << 7, 16), r.choice(pcs[:3]), [(rs, r.choice((CODE + 1, word(r, xlen), word(r, xlen) | 1)))])
        # everything else advances by its size, including at the end of the address space
        for _ in range(150 * reps):
            pc = r.choice(pcs[:4])
            rd, a, b = regs3(r)
            inst = r.choice((asm.addi(rd, a, 5), asm.add(rd, a, b), asm.lui(rd, 5), asm.FENCE, asm.FENCE_I, asm.WFI,
                             asm.csrrs(rd, 0x340, 0), asm.r_type(0x33, 4, 1, rd, a, b), asm.sfence(),
                             asm.load(2, rd, 6, 0), asm.store(2, 6, a, 0), asm.auipc(rd, 1),
                             (0x0001, 16), (0x4501, 16), (0x8512, 16), (0x0505, 16)))
            case(xlen, inst, pc, [(6, DATA), (a, word(r, xlen) if a != 6 else DATA)])
        # at high virtual addresses, too
        for _ in range(8 * reps):
            for pc in (CODE, CODE + 2, 0x80000ffe, 0xfffffffc, 0xfffffffe):
                for inst, regs in ((asm.jal(r.randrange(1, 32), r.choice((0x800, -0x800, 0xffffe, 4))), []),
                                   (asm.jalr(r.randrange(1, 32), 6, r.randrange(-2048, 2048)), [(6, r.choice((CODE, word(r, xlen))))]),
                                   (asm.jalr(6, 6, 1), [(6, DATA)]),
                                   (asm.b_type(r.choice((0, 5, 7)), 6, 6, r.choice((2, -4096, 4094))), []),
                                   (asm.b_type(r.choice((1, 4, 6)), 6, 6, 8), []),
                                   (asm.auipc(r.randrange(1, 32), r.getrandbits(20)), []),
                                   ((0x9002 | 6 << 7, 16), [(6, CODE + 1)]), ((0x8002 | 6 << 7, 16), [(6, DATA)]),
                                   ((0xa001 | r.getrandbits(11) << 2, 16), []),
                                   ((0x2001 | r.getrandbits(11) << 2, 16), []) if xlen == 32 else (asm.addi(5, 6, 7), []),
                                   ((r.choice((0xc001, 0xe001)) | r.getrandbits(11) << 2, 16), [(8, 0), (9, 1)])):
                    if pc < 0xfffffffe or isinstance(inst, tuple):
                        case(xlen, inst, pc, regs, 1, high)
    # programs made of jumps only: long chains through random code addresses
    scens = []
    for k in range(30 * reps):
        xlen = r.choice(XL)
        s = Scen("chain%d" % k, xlen)
        slots = [CODE + 16 * j for j in range(24)]
        perm = slots[:]
        r.shuffle(perm)
        s.csr(0x305, VEC)
        for i in range(len(perm)):
            a, b = perm[i], perm[(i + 1) % len(perm)]
            kind = r.randrange(4)
            pre = [asm.addi(9, 9, 1)] if r.random() < .5 else []
            o = 4 * len(pre)
            if kind == 0:
                s.mem(a, asm.w32(*pre, asm.jal(r.choice((0, 1)), b - a - o)))
            elif kind == 1:
                s.mem(a, asm.w32(*pre, asm.b_type(0, 0, 0, b - a - o), asm.EBREAK))
            elif kind == 2:
                d = b - a - o
                s.mem(a, asm.w32(*pre, asm.auipc(5, 0), asm.jalr(r.choice((0, 5)), 5, d)))
            else:
                s.mem(a, asm.w32(*pre, asm.auipc(7, 0), asm.addi(7, 7, b - a - o)) + asm.w16(0x8382))
        s.pc(perm[0]).run(200)
        scens.append(s)
    c.validate(p.out + high.out + scens)
    return mc(c, distinct_nontrivial=len(p.distinct | high.distinct), rule="distinct (xlen, control transfer, pc)")


# ---------------------------------------------------------------- C07

@check("C07")
def c07(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, wins=((0x1000, 0x20), (0x3000, 0x100), (0x7ffffff0, 0x10), (0, 0x10)), hi=True)
    reps = 1 if not c.thorough() else 30
    loads = {32: (0, 1, 2, 4, 5), 64: (0, 1, 2, 3, 4, 5, 6)}
    stores = {32: (0, 1, 2), 64: (0, 1, 2, 3)}

    def case(xlen, inst, base, vb, src, vs, prv=3):
        s = p.scen(xlen)
        if p.n[xlen] == 1:
            s.mem(DATA, bytes(r.getrandbits(8) for _ in range(0x100)))
            s.mem(0xfffffff0, bytes(r.getrandbits(8) for _ in range(0x10)))
        at = gen.code_addr(r)
        if src is not None:
            s.x(src, vs)
        s.x(base, vb)
        s.priv(prv).pc(at).mem(at, asm.code([inst])).run(1)

    for xlen in XL:
        ends = [0x80000000 + k for k in range(-8, 9)]
        ends += [0xfffffff0 + k for k in range(16)] + [0x100000000 + k for k in range(8)]
        for (kind, f3s) in (("l", loads[xlen]), ("s", stores[xlen])):
            for f3 in f3s:
                size = 1 << (f3 & 3)
                # every position in a 16-byte window, several offsets
                for o in range(16):
                    for imm in (0, r.randrange(-2048, 2048), r.choice((-1, 1, 2047, -2048))):
                        for _ in range(reps * 2):
                            rd, a, b = regs3(r)
                            a = a or 10
                            base = DATA + 16 * r.randrange(8) + o - imm
                            inst = asm.load(f3, rd, a, imm) if kind == "l" else asm.store(f3, a, b, imm)
                            case(xlen, inst, a, base, None if kind == "l" or a == b else b, word(r, xlen),
                                 r.choice((3, 3, 1, 0)))
                            p.note((xlen, kind, f3, o, imm))
                # ends of DRAM, and sums that wrap around
                for e in ends:
                    imm = r.choice((0, 8, -8, 2047, -2048))
                    inst = asm.load(f3, 5, 6, imm) if kind == "l" else asm.store(f3, 6, 7, imm)
                    case(xlen, inst, 6, e - imm, 7, word(r, xlen))
                    p.note((xlen, kind, f3, "end", e))
                for imm in (8, 2047, -2048, -8):
                    inst = asm.load(f3, 5, 6, imm) if kind == "l" else asm.store(f3, 6, 7, imm)
                    case(xlen, inst, 6, (0x80003010 - imm) & gen.M64 if xlen == 32 else (0 - imm) & gen.M64, 7,
                         word(r, xlen))
        # compressed, including the stack-pointer forms, at every alignment
        for (quad, f3) in ((0, 2), (0, 3), (0, 6), (0, 7), (2, 2), (2, 3), (2, 6), (2, 7)):
            for _ in range(90 * reps):
                mid = r.getrandbits(11)
                h = f3 << 13 | mid << 2 | quad
                base = 2 if quad == 2 else (h >> 7 & 7) + 8
                src = h >> 2 & 31 if quad == 2 else (h >> 2 & 7) + 8
                vb = DATA - 0x80 + 8 * r.randrange(16) + (r.choice((1, 2, 3, 4, 6)) if r.random() < .4 else 0)
                case(xlen, (h, 16), base, vb, src if src != base else None, word(r, xlen))
                p.note((xlen, "c", quad, f3, mid))
        # the other regions: boot ROM (its whole length, and every kind of byte in it) and device registers
        spots = [0x1000 + r.randrange(0x1000) & ~7 for _ in range(24 * reps)] + [0x1000 + 8 * k for k in range(8)]
        spots += [0x1028 + 8 * r.randrange(0xa0) for _ in range(24 * reps)] + [0x1ff8]
        spots += [0x2000000, 0x2000004, 0x2004000, 0x200bff8, 0x2000000 + 8 * r.randrange(0x2000)]
        spots += [0xc000000, 0xc000004, 0xc000028, 0xc002000, 0xc002080, 0xc001000, 0xc200000, 0xc201000]
        spots += [0x10000000 + k for k in range(8)]
        for (kind, f3s) in (("l", loads[xlen]), ("s", stores[xlen])):
            for f3 in f3s:
                size = 1 << (f3 & 3)
                for at in spots:
                    o = r.randrange(8) if at < 0x2000 else 0
                    ea = at + (o if r.random() < .15 else o & -size)
                    imm = r.choice((0, 0, r.randrange(-2048, 2048)))
                    rd, a, b = regs3(r)
                    a = a or 10
                    inst = asm.load(f3, rd, a, imm) if kind == "l" else asm.store(f3, a, b, imm)
                    case(xlen, inst, a, ea - imm, None if kind == "l" or a == b else b, word(r, xlen))
                    p.note((xlen, kind, f3, "region", ea, imm))
    # overlapping stores and loads of all widths: a memory that forgets or smears shows up
    scens = []
    for k in range(60 * reps):
        xlen = r.choice(XL)
        s = Scen("mix%d" % k, xlen)
        s.win(0x3000, 0x40)
        s.csr(0x305, VEC)
        prog = []
        for _ in range(60):
            o = r.randrange(0x28)
            if r.random() < .5:
                f3 = r.choice(stores[xlen])
                prog += [asm.store(f3, 6, r.randrange(8, 16), o & ~((1 << f3) - 1))]
            else:
                f3 = r.choice(loads[xlen])
                prog += [asm.load(f3, r.randrange(8, 16), 6, o & ~((1 << (f3 & 3)) - 1))]
        s.x(6, DATA)
        for i in range(8, 16):
            s.x(i, word(r, xlen))
        s.mem(CODE, asm.w32(*prog)).pc(CODE).run(60)
        scens.append(s)
    c.validate(p.out + scens)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, access, width, alignment, offset)")


# ---------------------------------------------------------------- C08

@check("C08")
def c08(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, per=100, hi=True)

    def case(xlen, inst, prv):
        s = p.scen(xlen)
        at = gen.code_addr(r)
        s.pc(at).mem(at, asm.code([inst])).priv(prv)
        s.csr(0x300, 0).run(1)
    reps = 1 if not c.thorough() else 10
    for xlen in XL:
        n = 0
        for rep in range(reps):
            for op in range(32):
                for f3 in range(8):
                    if op == 0x1c and f3 in (1, 2, 3, 5, 6, 7):
                        continue          # CSR accesses are the business of C12
                    for f7 in range(128):
                        # the remaining fields random, often zero
                        rd, a, b = regs3(r)
                        if r.random() < .3:
                            b = 0
                        if r.random() < .2:
                            rd, a = 0, 0
                        case(xlen, asm.r_type(op << 2 | 3, f3, f7, rd, a, b), (3, 1, 0)[n % 3])
                        n += 1
                        p.note((xlen, op, f3, f7))
        # SYSTEM with funct3 0: all immediates, with and without nonzero register fields
        for i12 in range(4096):
            for (rd, a) in ((0, 0), (r.randrange(32), r.randrange(32)), (r.randrange(1, 32), 0))[:3 if c.thorough() else 2]:
                case(xlen, asm.i_type(0x73, 0, rd, a, i12), r.choice((3, 1, 0)))
                p.note((xlen, "sys", i12))
        # funct3 4 of SYSTEM is undefined for every immediate
        for i12 in range(0, 4096, 1 if c.thorough() else 17):
            case(xlen, asm.i_type(0x73, 4, r.randrange(32), r.randrange(32), i12), r.choice((3, 1, 0)))
        # LR with a nonzero rs2 field, fences with unusual fields
        for b in range(32):
            for f3 in (2, 3):
                case(xlen, asm.r_type(0x2f, f3, 2 << 2, 5, 6, b), 3)
        for _ in range(100 * reps):
            case(xlen, asm.i_type(0x0f, r.randrange(8), r.randrange(32), r.randrange(32), r.getrandbits(12)), 3)
        # shift immediates: bit 25 and the function bits
        for f3 in (1, 5):
            for i12 in range(0, 4096, 1 if c.thorough() else 5):
                for op in (0x13, 0x1b):
                    case(xlen, asm.i_type(op, f3, r.randrange(32), r.randrange(32), i12), 3)
                    p.note((xlen, "sh", op, f3, i12))
        # 16-bit encodings: every one in thorough mode (C03 always runs all), the reserved ones always
        for h in range(0x10000):
            if h & 3 == 3:
                continue
            q, f3 = h & 3, h >> 13
            reserved = (h & 0xffff == 0 or q == 0 and f3 in (1, 4, 5) or q == 0 and h >> 5 == 0 or q == 2 and f3 == 1
                        or q == 1 and f3 == 4 and h >> 12 & 1 and h >> 10 & 3 == 3 or q == 2 and f3 == 5)
            if c.thorough() or (reserved and r.random() < .12) or r.random() < .04:
                case(xlen, (h, 16), r.choice((3, 1, 0)))
                p.note((xlen, "c", h))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct),
              rule="distinct (xlen, major opcode, funct3, funct7), SYSTEM immediates, shift immediates, 16-bit encodings")


# ---------------------------------------------------------------- C09

@check("C09")
def c09(c):
    """every kind of fault: nothing but the trap happens, and the instruction can be run again"""
    r = rng(c)
    c.build()
    scens = []
    keys = set()
    reps = 12 if not c.thorough() else 400
    mems = ["l%d" % f for f in range(7)] + ["s%d" % f for f in range(4)] + ["amo4", "amo8", "lr4", "lr8", "sc4", "sc8"]
    faults = ("misaligned", "unmapped", "rom", "device", "page", "pmp", "trigger", "pte-out", "level0", "fix-reg")
    k = 0

    def memop(name, xlen, rd, a, b, imm):
        if name[0] == "l" and name[1] != "r":
            f = int(name[1])
            return asm.load(f, rd, a, imm), 1 << (f & 3), xlen == 64 or f not in (3, 6)
        if name[0] == "s" and name[1] != "c":
            f = int(name[1])
            return asm.store(f, a, b, imm), 1 << f, xlen == 64 or f != 3
        size = int(name[-1])
        f5 = {"amo": r.choice((0, 1, 4, 8, 12, 16, 20, 24, 28)), "lr": 2, "sc": 3}[name[:-1]]
        return asm.amo(f5, size, rd, a, 0 if f5 == 2 else b, r.randrange(4)), size, xlen == 64 or size == 4

    for xlen in XL:
        for name in mems:
            for fault in faults:
                for _ in range(max(1, reps // 6)):
                    rd, a, b = r.choice(((5, 6, 7), (6, 6, 7), (7, 6, 7), (5, 6, 6), (0, 6, 7)))
                    imm = 0 if name[:2] in ("am", "lr", "sc") else r.choice((0, 0, 8, -16, 2040))
                    inst, size, ok = memop(name, xlen, rd, a, b, imm)
                    if not ok:
                        continue
                    s = Scen("f%d" % k, xlen)
                    k += 1
                    s.win(0x3000, 0x100).win(0x1000, 0x20)
                    s.csr(0x305, VEC).csr(0x105, VEC + 0x40)
                    s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x40, asm.w32(asm.SRET))
                    s.mem(DATA, bytes(r.getrandbits(8) for _ in range(0x100)))
                    for i in range(1, 32):
                        s.x(i, word(r, xlen))
                    deleg = r.random() < .4
                    target = DATA + 8 * r.randrange(8)
                    probe = r.random() < (.5 if name[:2] in ("lr", "sc", "am") else .1)
                    width = 4 if xlen == 32 or size == 4 else 8
                    if probe and r.random() < .5:
                        # a reservation made before
                        s.x(8, r.choice((DATA + 0xf0, target))).mem(CODE + 0x900, asm.w32(asm.amo(2, width, 9, 8, 0)))
                        s.csr(0x300, 0).pc(CODE + 0x900).priv(3).run(1)
                    if deleg:
                        s.csr(0x302, 0xffff)
                    fix = []
                    prv = 3
                    if fault in ("page", "pte-out", "level0"):
                        va = gen.random_va(r, xlen) | (target & 0xfff)
                        level = r.randrange(gen.top(xlen) + 1) if fault == "page" else 0
                        good = 0xdf
                        base = target & ~(gen.span(xlen, level) - 1)
                        va = (va & ~(gen.span(xlen, level) - 1)) | (target & (gen.span(xlen, level) - 1))
                        if xlen == 64 and level == 2:
                            va &= ~0
                        if fault == "page":
                            flags = r.choice((0, 0xde, 0xdf & ~gen.A_, 0xdf & ~gen.D_, 0xd5, 0xd3, 0xd9, 0xcf, 0xd1))
                            gen.chain(s, xlen, va, level, gen.pte(base, flags))
                        elif fault == "pte-out":
                            gen.chain(s, xlen, va, 0, gen.pte(base, good))
                            gen.put_pte(s, xlen, gen.TABLES[1], gen.vpn(xlen, va, 1), gen.pte(0x10000000, 1))
                        else:
                            gen.chain(s, xlen, va, 0, gen.pte(base, 1))
                        f2 = Scen("", xlen)
                        gen.chain(f2, xlen, va, level, gen.pte(base, good))
                        fix = f2.lines
                        s.csr(0x180, gen.satp(xlen)).csr(0x300, gen.MPRV | gen.MPP[0])
                        fix = fix + ["c 300 %x" % (gen.MPRV | gen.MPP[0])]
                        addr = va
                        deleg = False
                        # the handler runs with MPP = M, so the status is set again before the retry
                    elif fault == "misaligned":
                        if size == 1:
                            continue
                        addr = target + r.randrange(1, size)
                        fix = ["x %x %x" % (a, target - imm)]
                    elif fault == "unmapped":
                        addr = r.choice((0, 0x800, 0x7ffffff8, 0x30000000, 0x100000000 if xlen == 64 else 0x40000000))
                        fix = ["x %x %x" % (a, (target - imm) & gen.M64)]
                    elif fault == "rom":
                        addr = r.choice((0x1000, 0x1018, 0x1ff8)) if name[0] != "l" or name[1] == "r" else 0xf00
                        if name[:2] == "sc":
                            # with a reservation for it: the boot ROM can be read
                            s.x(a, addr).mem(CODE + 0x800, asm.w32(asm.amo(2, size, r.choice((5, 7)), a, 0, 0)))
                            s.pc(CODE + 0x800).priv(3).run(1)
                        fix = ["x %x %x" % (a, target - imm)]
                    elif fault == "device":
                        # a width the device does not support
                        if name[:2] == "sc" and r.random() < .5:
                            # a register that is readable but not writable does not exist: reserve one that is, then
                            # let the reservation go stale
                            s.x(a, 0x2004000).mem(CODE + 0x800, asm.w32(asm.amo(2, size, 5, a, 0, 0)))
                            s.pc(CODE + 0x800).priv(3).run(1)
                        addr = r.choice((0x2000000, 0xc000004)) if size < 4 else 0x10000000
                        fix = ["x %x %x" % (a, target - imm)]
                    elif fault == "pmp":
                        addr = target
                        s.csr(0x3b0, target >> 2).csr(0x3b1, (target >> 2) + 2).csr(0x3a0, 0x8800)
                        fix = ["c 3a0 8f00"]
                    elif fault == "trigger":
                        addr = target
                        t = 2 << (28 if xlen == 32 else 60) | 1 << 6 | 1 << 4 | 1 << 3 | 3
                        s.csr(0x7a0, r.randrange(8)).csr(0x7a2, target).csr(0x7a1, t)
                        fix = ["c 7a1 0"]
                    else:
                        addr = r.choice((1, 0xfffffffffffffff1))
                        fix = ["x %x %x" % (a, target - imm)]
                    if fault not in ("page", "pte-out", "level0") and r.random() < .5:
                        prv = r.choice((0, 1))
                        if fault == "pmp":
                            s.csr(0x3b2, 0x20000000).csr(0x3b3, 0x40000000)
                            s.csr(0x3a0, 0x0f008800)
                            fix = ["c 3a0 f008f00"]
                    s.x(b, word(r, xlen)).x(a, (addr - imm) & gen.M64)
                    at = gen.code_addr(r)
                    s.mem(at, asm.w32(inst)).pc(at).priv(prv).run(1)
                    if probe:
                        # the reservation is what it was
                        here = addr if fault in ("misaligned", "unmapped", "rom", "device") else target
                        for l in fix:
                            if l[0] == "c":
                                s.add(l)
                        s.x(8, r.choice((here, here, DATA + 0xf0)) & gen.M64).mem(CODE + 0x900, asm.w32(asm.amo(3, width, 9, 8, 5)))
                        s.csr(0x300, 0).pc(CODE + 0x900).priv(3).run(1)
                        keys.add((xlen, name, fault, "probe"))
                        scens.append(s)
                        continue
                    for l in fix:
                        s.add(l)
                    if fault in ("page", "pte-out", "level0"):
                        s.csr(0x300, gen.MPRV | gen.MPP[0]).csr(0x341, at).priv(3).pc(at).run(1)
                    else:
                        s.run(2)      # xRET, then the instruction again
                    keys.add((xlen, name, fault, rd, prv))
                    scens.append(s)
        # illegal instructions, environment calls, breakpoints, in every mode
        for _ in range(reps * 12):
            s = Scen("i%d" % k, xlen)
            k += 1
            s.win(0x1000, 0x20)
            s.csr(0x305, VEC).csr(0x105, VEC + 0x40)
            s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x40, asm.w32(asm.SRET))
            for i in range(1, 32):
                s.x(i, word(r, xlen))
            prv = r.choice((0, 1, 3))
            if r.random() < .5:
                s.csr(0x302, r.choice((0xffff, 0xb1ff, 1 << 2, 1 << 3, 1 << 8)))
            s.csr(0x343, r.getrandbits(64)).csr(0x143, r.getrandbits(64))
            inst = r.choice((asm.ECALL, asm.EBREAK, (0x9002, 16), (0, 16), 0xffffffff, 0x0000007f, asm.MRET, asm.SRET,
                             asm.csrrw(5, 0x305, 6), asm.csrrs(5, 0xc00, 0), asm.csrrw(5, 0xc01, 6), asm.sfence(),
                             asm.csrrw(5, 0xf14, 0), asm.csrrs(5, 0x180, 0), asm.r_type(0x33, 1, 5, 5, 6, 7),
                             asm.csrrw(7, 0x7b0, 7), asm.r_type(0x2f, 2, 0x7f, 5, 6, 7), (0x8002, 16), (0x2000, 16)))
            at = gen.code_addr(r)
            s.csr(0x300, r.choice((0, gen.TVM, gen.TSR, gen.TVM | gen.TSR, gen.MIE_, gen.SIE_ | gen.MIE_)))
            s.mem(at, asm.code([inst, asm.NOP, asm.NOP])).pc(at).priv(prv).run(1)
            # replace it by something harmless and return
            s.mem(at, asm.code([asm.addi(5, 5, 1)])).run(2)
            keys.add((xlen, inst if isinstance(inst, int) else inst[0], prv))
            scens.append(s)
        # faulting fetches: unmapped, execute permission, second half on another page
        for _ in range(reps * 12):
            s = Scen("x%d" % k, xlen)
            k += 1
            s.csr(0x305, VEC).csr(0x105, VEC + 0x40)
            s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x40, asm.w32(asm.SRET))
            kind = r.choice(("page", "cross", "cross", "unmapped", "pmp", "pmpcross", "dev", "trigger", "trigger2"))
            page = 0x80004000
            prv = r.choice((0, 1))
            fix = []
            inst = r.choice((asm.addi(5, 5, 1), asm.lui(5, 1)))
            if kind in ("page", "cross"):
                va = gen.random_va(r, xlen)
                u = gen.U_ if prv == 0 else 0
                good = gen.V_ | gen.X_ | gen.R_ | gen.A_ | u
                bad = r.choice((0, good & ~gen.X_, good & ~gen.A_, good & ~gen.V_, good ^ gen.U_))
                va2 = va + 0x1000 if vpn_room(xlen, va) else va
                at, pat = (va, page) if kind == "page" or va2 == va else (va + 0xffe, page + 0xffe)
                s.mem(pat, asm.w32(inst)[:2])
                second = page + 0x1000 if kind == "page" or va2 == va else 0x80007000
                if at == va:
                    s.mem(pat, asm.w32(inst))
                    gen.chain(s, xlen, va, 0, gen.pte(page, bad))
                    f2 = Scen("", xlen)
                    gen.chain(f2, xlen, va, 0, gen.pte(page, good))
                else:
                    s.mem(second, asm.w32(inst)[2:])
                    which = r.randrange(3)
                    gen.chain(s, xlen, va, 0, gen.pte(page, bad if which == 1 else good))
                    gen.chain(s, xlen, va2, 0, gen.pte(second, good if which == 1 else bad))
                    f2 = Scen("", xlen)
                    gen.chain(f2, xlen, va, 0, gen.pte(page, good))
                    gen.chain(f2, xlen, va2, 0, gen.pte(second, good))
                fix = f2.lines
                s.csr(0x180, gen.satp(xlen))
            elif kind == "unmapped":
                at = r.choice((0, 0x1000 - 2, 0x7ffffffe, 0x20000000, 0x100000000 - 2))
                if at == 0xfffffffe:
                    s.mem(at, asm.w32(inst)[:2])
                prv = r.choice((0, 1, 3))
            elif kind == "dev":
                at = r.choice((0x2000000, 0xc000000, 0x10000000, 0x2004000))
                prv = r.choice((0, 1, 3))
            elif kind in ("pmp", "pmpcross"):
                at = page + (0x10 if kind == "pmp" else 0xe)
                s.mem(at, asm.w32(inst))
                s.csr(0x3b0, (page + 0x10) >> 2).csr(0x3b1, (page + 0x20) >> 2).csr(0x3b2, 0).csr(0x3b3, 0x40000000)
                s.csr(0x3a0, 0x0f000000 | (0x8b if r.random() < .5 else 0x88) << 8)
                prv = r.choice((0, 1, 3))
                fix = ["c 3a0 f008f00"]
            else:
                at = page + 2 * r.randrange(4)
                t = 2 << (28 if xlen == 32 else 60) | 1 << 6 | 1 << 4 | 1 << 3 | 4
                s.mem(at, asm.w32(inst))
                s.csr(0x7a0, r.randrange(8)).csr(0x7a2, at if kind == "trigger" else at + 2).csr(0x7a1, t)
                fix = ["c 7a1 0"]
                prv = r.choice((0, 1, 3))
            s.x(5, word(r, xlen))
            s.pc(at).priv(prv).run(1)
            if fix and r.random() < .8:
                for l in fix:
                    s.add(l)
                s.run(2)
            keys.add((xlen, kind, prv, at & 0xfff))
            scens.append(s)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, instruction, fault, registers or mode)")


def vpn_room(xlen, va):
    """is the next page mapped by the same last-level table?"""
    return gen.vpn(xlen, va, 0) < (0x3ff if xlen == 32 else 0x1ff)
