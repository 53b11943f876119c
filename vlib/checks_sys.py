"""Triggers, robustness, whole programs: C27 to C29."""
from . import asm, gen
from .checks import check, mc, rng, XL
from .gen import Packer, word, mask, CODE, DATA, VEC
from .core import Scen

PRV = (0, 1, 3)


# ---------------------------------------------------------------- C27

def tdata1(xlen, typ=2, m=1, s=1, u=1, x=0, w=0, rd=0, match=0, extra=0):
    return typ << (xlen - 4) | match << 7 | m << 6 | s << 4 | u << 3 | x << 2 | w << 1 | rd | extra


@check("C27")
def c27(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, per=40, wins=((0x1000, 0x40), (0x3000, 0x80)))
    reps = 1 if not c.thorough() else 20

    def clear(s):
        for i in range(8):
            s.csr(0x7a0, i).csr(0x7a1, 0).csr(0x7a2, 0)
        s.csr(0x300, 0).csr(0x180, 0)

    def access(s, xlen, kind, addr, prv, size=None):
        at = gen.code_addr(r)
        s.x(7, r.getrandbits(64)).csr(0x300, 0).priv(prv)
        if kind == "x":
            s.mem(addr, asm.w32(asm.addi(5, 5, 1))).pc(addr).run(1)
            return
        f = {1: 0, 2: 1, 4: 2, 8: 3}[size or r.choice((1, 2, 4))]
        s.x(6, addr)
        inst = {"r": asm.load(f, 5, 6, 0), "w": asm.store(f, 6, 7, 0), "amo": asm.amo(r.choice((0, 1, 3)), 4, 5, 6, 7),
                "lr": asm.amo(2, 4, 5, 6, 0)}[kind]
        s.mem(at, asm.w32(inst)).pc(at).run(1)

    for xlen in XL:
        # which slot, kind and mode bits, against which access
        for _ in range(reps):
            for slot in range(8):
                for bits in range(8):
                    for kind in ("x", "r", "w", "amo", "lr"):
                        for prv in PRV:
                            if r.random() < .45 and not c.thorough():
                                continue
                            s = p.scen(xlen)
                            clear(s)
                            m = r.getrandbits(3) if r.random() < .6 else 7
                            addr = DATA + 8 * r.randrange(12)
                            t = tdata1(xlen, m=m >> 2, s=m >> 1 & 1, u=m & 1, x=bits >> 2, w=bits >> 1 & 1, rd=bits & 1,
                                       extra=r.choice((0, 0, 1 << 12, 1 << 5, 1 << 18, 1 << 20, 1 << (xlen - 5))))
                            s.csr(0x7a0, slot)
                            if r.random() < .5:
                                s.csr(0x7a1, t).csr(0x7a2, addr)
                            else:
                                s.csr(0x7a2, addr).csr(0x7a1, t)
                            # selecting another slot must change nothing
                            if r.random() < .6:
                                s.csr(0x7a0, r.choice((0, 1, 2, 7, 8, 9, 100)))
                            if r.random() < .5:
                                # an innocent second trigger, before or after
                                other = (slot + r.randrange(1, 8)) % 8
                                s.csr(0x7a0, other).csr(0x7a2, addr + 4).csr(0x7a1, tdata1(xlen, x=1, w=1, rd=1))
                            if r.random() < .5:
                                # others that cannot match, all around it
                                for other in range(8):
                                    if other != slot and r.random() < .7:
                                        odd = r.choice((dict(typ=r.choice((0, 1, 3, 5, 6, 15))), dict(match=r.randrange(1, 16)),
                                                        dict(m=0, s=0, u=0), dict(x=0, w=0, rd=0)))
                                        s.csr(0x7a0, other).csr(0x7a2, addr + r.choice((0, 4))).csr(0x7a1, tdata1(xlen, **{**dict(x=1, w=1, rd=1), **odd}))
                            where = addr + r.choice((0, 0, 0, 0, 4, -4, 1, 2, 0x1000))
                            if kind in ("amo", "lr"):
                                where &= ~3
                            if kind == "x":
                                where &= ~1
                            access(s, xlen, kind, where, prv)
                            p.note((xlen, slot, bits, kind, prv, m, where - addr))
        # unsupported types and match modes are inert
        for typ in range(16):
            for match in range(16):
                for kind in "xrw":
                    if match and typ != 2 and r.random() < .9:
                        continue
                    s = p.scen(xlen)
                    clear(s)
                    s.csr(0x7a0, r.randrange(8)).csr(0x7a2, DATA).csr(0x7a1, tdata1(xlen, typ=typ, match=match, x=1, w=1, rd=1))
                    access(s, xlen, kind, DATA, r.choice(PRV))
                    p.note((xlen, "type", typ, match, kind))
        # the CSRs, by guest instructions
        for _ in range(60 * reps):
            s = p.scen(xlen)
            clear(s)
            addr = DATA + 8 * r.randrange(8)
            s.x(10, r.choice((0, 3, 7, 8, 15, gen.M64, 1 << 32, 0x10000, 0x100))).x(11, tdata1(xlen, x=1, w=1, rd=1)).x(12, addr)
            s.x(6, addr)
            prog = [asm.csrrw(1, 0x7a0, 10), asm.csrrs(2, 0x7a0, 0), asm.csrrw(3, 0x7a2, 12), asm.csrrw(4, 0x7a1, 11),
                    r.choice((asm.csr(5, 0, r.randrange(10), 0x7a0), asm.csrrs(5, 0x7a1, 0), asm.csrrc(5, 0x7a1, 11), asm.NOP)),
                    asm.csrrs(8, 0x7a2, 0), r.choice((asm.load(2, 9, 6, 0), asm.store(2, 6, 7, 0)))]
            s.csr(0x300, 0).priv(3).mem(CODE, asm.w32(*prog)).pc(CODE).run(len(prog))
            p.note((xlen, "guest", _))
        # a trigger on the virtual address, under paging; on an access that would fault anyway; above 4 GiB
        for _ in range(50 * reps):
            s = p.scen(xlen)
            clear(s)
            va = gen.random_va(r, xlen) | 8 * r.randrange(8)
            kind = r.choice("rwx")
            flags = r.choice((0xdf, 0xdf, 0))
            gen.chain(s, xlen, va, 0, gen.pte(DATA, flags))
            s.csr(0x7a0, r.randrange(8)).csr(0x7a2, r.choice((va, va, DATA | va & 0xfff))).csr(0x7a1, tdata1(xlen, m=1, u=r.randrange(2), x=1, w=1, rd=1))
            s.csr(0x180, gen.satp(xlen))
            s.mem(DATA, asm.w32(*[asm.addi(5, 5, 1)] * 16))
            if kind == "x":
                s.priv(0).pc(va).run(1)
            else:
                s.x(6, va).mem(CODE, asm.w32(asm.load(2, 5, 6, 0) if kind == "r" else asm.store(2, 6, 7, 0)))
                s.csr(0x300, gen.MPRV | gen.MPP[0]).priv(3).pc(CODE).run(1)
            p.note((xlen, "va", kind, flags))
        for a in (0, 0x10000000, 0x1000, DATA + 1, 0x80000000, 0xfffffffc, 0x100000000, gen.M64 - 3):
            for kind in "rw":
                s = p.scen(xlen)
                clear(s)
                s.csr(0x7a0, r.randrange(8)).csr(0x7a2, a).csr(0x7a1, tdata1(xlen, x=1, w=1, rd=1))
                access(s, xlen, kind, a & mask(xlen), r.choice(PRV), size=r.choice((1, 4)))
                p.note((xlen, "at", a, kind))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, slot, kinds, modes, access, position) and (type, match)")


# ---------------------------------------------------------------- random instructions

def rand_inst(r, xlen, wild=0.0):
    """one instruction; wild: chance of arbitrary bits"""
    k = r.random()
    rd, a, b = gen.regs3(r)
    if k < wild:
        v = r.getrandbits(32)
        return v | 3 if r.random() < .8 else (v & 0xffff, 16) if v & 3 != 3 else v
    # bases: x28..x31 point into the data window
    base = r.randrange(28, 32)
    if rd >= 26 and r.random() < .9:
        rd = r.randrange(1, 26)
    k = r.randrange(15)
    if k == 0:
        return asm.r_type(0x33, r.randrange(8), r.choice((0, 0, 1)), rd, a, b)
    if k == 1:
        return asm.r_type(0x33, r.choice((0, 5)), 32, rd, a, b)
    if k == 2:
        return asm.i_type(0x13, r.choice((0, 2, 3, 4, 6, 7)), rd, a, r.getrandbits(12))
    if k == 3:
        sh = r.randrange(xlen)
        return (r.choice((0, 0x400)) if r.random() < .5 else 0) << 20 | sh << 20 | a << 15 | 5 << 12 | rd << 7 | 0x13
    if k == 4 and xlen == 64:
        f3 = r.choice((0, 4, 5, 6, 7))
        return asm.r_type(0x3b, f3, 1, rd, a, b) if r.random() < .5 else asm.r_type(
            0x3b, r.choice((0, 1, 5)), 0, rd, a, b)
    if k == 5:
        f = r.choice((0, 1, 2, 4, 5) + ((3, 6) if xlen == 64 else ()))
        return asm.load(f, rd, base, r.randrange(0, 8) * 8 + r.choice((0, 0, 0, 0, 1, 2, 4)))
    if k in (6, 7):
        f = r.choice((0, 1, 2) + ((3,) if xlen == 64 else ()))
        return asm.store(f, base, b, r.randrange(0, 8) * 8 + r.choice((0, 0, 0, 0, 1, 2, 4)))
    if k == 8:
        f5 = r.choice(list(asm.AMO.values()))
        size = r.choice((4, 8)) if xlen == 64 else 4
        return asm.amo(f5, size, rd, base, 0 if f5 == 2 else b, r.randrange(4))
    if k == 9:
        return asm.b_type(r.choice((0, 1, 4, 5, 6, 7)), a, b, r.choice((4, 8, 12, 6, 10, -4, 16)))
    if k == 10:
        return r.choice((asm.jal(r.choice((0, rd)), r.choice((4, 8, 12, 6))), asm.auipc(rd, r.getrandbits(20)),
                         asm.lui(rd, r.getrandbits(20))))
    if k == 11:
        num = r.choice((0x300, 0x100, 0x305, 0x105, 0x340, 0x341, 0x342, 0x343, 0x140, 0x141, 0x304, 0x344, 0x104, 0x144,
                        0x302, 0x303, 0x306, 0x106, 0xc00, 0xc01, 0xf14, 0x301, 0xb00))
        if r.random() < .6:
            num = r.choice((0x340, 0x140, 0x342, 0x143, 0xf14, 0xc01))
        return asm.csr(r.choice((1, 2, 3, 5, 6, 7)), rd, a if r.random() < .7 else 0, num)
    if k == 12:
        return r.choice((asm.ECALL, asm.EBREAK, asm.MRET, asm.SRET, asm.WFI, asm.FENCE, asm.FENCE_I, asm.sfence(),
                         asm.NOP, 0xffffffff))
    # compressed
    h = r.getrandbits(16)
    q, f3 = h & 3, h >> 13
    if q == 3:
        h = h & ~3 | 1
    q = h & 3
    if q == 0 and f3 >= 1 or q == 2 and f3 >= 6 or q == 2 and f3 in (2, 3):
        h = r.choice((0x0505, 0x8512, 0x4501, 0x852e, 0x8d0d, 0x0001, 0x050a))
    if q == 1 and f3 in (1, 5) and (xlen == 32 or f3 == 5):
        h = 0xa011
    if q == 2 and f3 == 4 and h >> 2 & 31 == 0:
        h = 0x9002
    return (h, 16)


def put_program(s, at, insts):
    s.mem(at, asm.code(insts))


def handlers(r, s, xlen):
    """trap handlers that skip the faulting instruction, or come back to it, or stay"""
    if r.random() < .8:
        # skip 4 bytes
        m = [asm.csrrs(26, 0x341, 0), asm.addi(26, 26, 4), asm.csrrw(0, 0x341, 26), asm.MRET]
        ss = [asm.csrrs(26, 0x141, 0), asm.addi(26, 26, 4), asm.csrrw(0, 0x141, 26), asm.SRET]
        if r.random() < .5:
            m[1] = asm.addi(26, 26, 2)
    else:
        m, ss = [asm.MRET], [asm.ECALL, asm.SRET]
    s.mem(VEC, asm.w32(*m)).mem(VEC + 0x80, asm.w32(*ss))
    s.csr(0x305, VEC).csr(0x105, VEC + 0x80)


# ---------------------------------------------------------------- C28

@check("C28")
def c28(c):
    """anything at all: no panic, and every step is one the specification has"""
    r = rng(c)
    c.build()
    scens, keys = [], set()
    n = 500 if not c.thorough() else 12000
    csrs = [0x300, 0x301, 0x302, 0x303, 0x304, 0x305, 0x306, 0x341, 0x342, 0x343, 0x344, 0x180, 0x100, 0x104, 0x105, 0x106,
            0x141, 0x142, 0x143, 0x144, 0x14d, 0x3a0, 0x3a1, 0x3a2, 0x3a3, 0x7a0, 0x7a1, 0x7a2, 0xb00, 0xb02, 0xb03, 0x000] \
        + list(range(0x3b0, 0x3c0))
    devs = [0, 0xfff, 0x1000, 0x1018, 0x1ff8, 0x2000000, 0x2004000, 0x200bff8, 0x200fff8, 0x2010000, 0xc000000, 0xc000004,
            0xc00007c, 0xc000080, 0xc001000, 0xc002000, 0xc002080, 0xc002100, 0xc200000, 0xc200004, 0xc201000, 0xc201004,
            0xc202000, 0xcfffffc, 0xd000000, 0x10000000, 0x10000007, 0x100000ff, 0x10000100, 0x7ffffff8, 0x80000000,
            0xfffffff8, 0xfffffffc, 0xffffffff, 0x100000000, 0x1fffffff8, 1 << 63, gen.M64 - 7, gen.M64, DATA, DATA + 1]
    for k in range(n):
        xlen = XL[k % 2]
        s = Scen("chaos%d" % k, xlen)
        s.win(0x1000, 0x40).win(0x3000, 0x80)
        s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
        kind = r.choice(("insts", "bits", "csrs", "devices", "tables", "anything"))
        for i in range(1, 32):
            s.x(i, word(r, xlen))
        for i in range(28, 32):
            s.x(i, DATA)
        handlers(r, s, xlen)

        def fuzz_csrs(m):
            for _ in range(m):
                a = r.choice(csrs) if r.random() < .9 else r.randrange(4096)
                v = word(r, xlen)
                if a in (0x305, 0x105) and r.random() < .7:
                    v = v & ~3 if r.random() < .5 else VEC | r.randrange(2)
                elif a in (0x305, 0x105):
                    v &= ~2
                if a == 0x180:
                    v = gen.satp(xlen) | (r.getrandbits(8) if r.random() < .3 else 0)
                s.csr(a, v)
        def sane(m):
            for _ in range(m):
                at = CODE + 2 * r.randrange(16)
                if kind in ("insts", "csrs", "tables"):
                    inst = rand_inst(r, xlen, .3)
                elif kind == "bits":
                    inst = r.getrandbits(32) | (3 if r.random() < .7 else 0)
                elif kind == "devices" or r.random() < .5:
                    f = r.randrange(8)
                    inst = r.choice((asm.load(f, r.choice((0, 5, 6)), 6, r.choice((0, 0, 1, 4, 8, -8))),
                                     asm.store(r.randrange(4), 6, 7, r.choice((0, 0, 1, 4, 8, -8))),
                                     asm.amo(r.choice(list(asm.AMO.values())), r.choice((4, 8)), 5, 6, r.choice((0, 7)))))
                    s.x(6, (r.choice(devs) + r.choice((0, 0, 0, 1, 2, 4, r.randrange(0x2000)))) & gen.M64).x(7, word(r, xlen))
                else:
                    inst = rand_inst(r, xlen, .6)
                if kind in ("csrs", "anything") and r.random() < .4:
                    # a CSR access by instruction, with any value; the vectors stay legal
                    a = r.choice(csrs)
                    f3 = r.choice((1, 2, 3, 5, 6, 7))
                    if a not in (0x305, 0x105):
                        inst = asm.csr(f3, r.randrange(32), 7 if f3 < 4 else r.randrange(32), a)
                        s.x(7, word(r, xlen))
                s.mem(at, asm.code([inst])).pc(at)
                if r.random() < .8:
                    s.priv(r.choice(PRV))
                s.run(r.choice((1, 1, 2)))
                keys.add((kind, inst if isinstance(inst, int) else inst[0]))
        if kind == "tables":
            # page tables of random entries, all over each other
            for t in list(gen.TABLES.values()):
                for _ in range(6):
                    v = r.choice((gen.pte(r.choice(list(gen.TABLES.values())), r.getrandbits(8)),
                                  gen.pte(DATA & ~0xfff, r.getrandbits(8)), r.getrandbits(64),
                                  gen.pte(r.choice(devs) & ~0xfff, r.getrandbits(10))))
                    gen.put_pte(s, xlen, t, r.choice((0, 1, 2, 0x1ff, 0x100)), v)
            for i in range(28, 32):
                s.x(i, gen.random_va(r, xlen) | r.choice((0, 8, 0xff8, 0xfff)))
        for _ in range(5):
            if kind in ("csrs", "anything", "tables") or r.random() < .2:
                fuzz_csrs(r.randrange(1, 6))
            sane(5)
            if kind in ("devices", "anything") and r.random() < .5:
                s.level(r.randrange(1, 32), r.randrange(2))
                s.inp(bytes(r.getrandbits(8) for _ in range(r.choice((1, 5, 80)))))
        scens.append(s)
        # a stretch of undirected execution
        s.mem(CODE, bytes(r.getrandbits(8) for _ in range(0x40))).pc(r.choice((CODE, 0x80000000, 0x1000, word(r, xlen) & ~1)))
        s.priv(r.choice(PRV)).run(12)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (kind of chaos, instruction)")


# ---------------------------------------------------------------- C29

def toggles(r, s, xlen):
    """state that instructions depend on is changed and used at once, over and over: page table entries, the root, status
    bits, protection, triggers, delegation, vectors and instruction memory"""
    size, st = (4, 2) if xlen == 32 else (8, 3)
    lv = gen.top(xlen)
    va, page, other = 0x40000000, 0x80004000, 0x80005000
    for tables in (gen.TABLES, gen.ALT):
        gen.chain(s, xlen, va, 0, gen.pte(DATA & ~0xfff, r.choice((0xcf, 0xdf, 0))), tables)
        gen.put_pte(s, xlen, tables[0], gen.vpn(xlen, va + 0x1000, 0), gen.pte(page, r.choice((0xcf, 0xdf))))
        gen.put_pte(s, xlen, tables[0], gen.vpn(xlen, va + 0x2000, 0), gen.pte(r.choice((page, other)), r.choice((0xcf, 0xdf, 0))))
        gen.put_pte(s, xlen, tables[lv], gen.vpn(xlen, 0x80000000, lv), gen.pte(0x80000000, 0xcf))
    for a in (page, other):
        s.mem(a, asm.code([asm.addi(5, 5, r.randrange(2048)), asm.jalr(0, 1, 0)] * 4))
    s.mem(DATA, bytes(r.getrandbits(8) for _ in range(0x100)))
    prv = r.choice((1, 3, 3))
    direct = prv == 3                            # M-mode reaches tables and instructions by physical address
    flags = lambda: r.choice((0xcf, 0xcf, 0xdf, 0xc7, 0xc3, 0xc9, 0xd9, 0, 0x8f, 0x4f, 0xd7, 0xcb))
    pmps = (7, 0xf, 8, 9, 0xb, 0x1f, 0x18, 0x19, 0)
    vals = {28: va, 29: va + 0x1000, 30: va + 0x2000, 31: gen.TABLES[0], 25: DATA, 24: gen.ALT[0]}
    for i in range(10, 15):                      # entries
        vals[i] = gen.pte(r.choice((DATA & ~0xfff, page, other)), flags())
    vals[15], vals[16], vals[17] = gen.satp(xlen), gen.satp(xlen, tables=gen.ALT, asid=r.randrange(3)), 0
    for i in (18, 19, 20):                       # status
        vals[i] = r.choice((gen.MPRV, gen.MPRV, 0)) | r.choice((0, gen.MPP[1], gen.MPP[1])) | r.choice((0, gen.SUM)) | r.choice((0, gen.MXR))
    vals[21] = sum(r.choice(pmps) << 8 * j for j in range(4))
    vals[22] = 0x0f0f0f00 | r.choice(pmps)
    vals[23] = 2 << (xlen - 4) | 0x58 | r.randrange(8)
    vals[9] = r.choice((DATA >> 2, (DATA + 0x20) >> 2, DATA >> 2 | 3, (page >> 2) + 2, (page >> 2) | 1, gen.M64 >> 10))
    vals[8] = r.choice((asm.addi(5, 5, 1), asm.lui(6, 0x1234), 0x00010001, 0x8082 << 16 | 0x0505, asm.NOP))
    vals[27] = VEC + 0x40
    for i, v in vals.items():
        s.x(i, v)
    s.csr(0x180, r.choice((vals[15], vals[16]) if not direct else (vals[15], vals[16], 0))).csr(0x300, vals[18])
    for i in range(4):
        s.csr(0x3b0 + i, (DATA, DATA + 0x20, DATA + 0x80, gen.M64 >> 8)[i] >> 2)
    if prv == 1 or r.random() < .5:
        s.csr(0x3a0, 0x0f0f0f0f)
    s.csr(0x7a2, r.choice((va + 8, va + 0x1000, DATA + 8, page, va + 0x1004)))
    s.csr(0x302, r.choice((0, 0, 0xffff)))
    skip = asm.w32(asm.csrrs(26, 0x341, 0), asm.addi(26, 26, 4), asm.csrrw(0, 0x341, 26), asm.MRET)
    s.mem(VEC, skip).mem(VEC + 0x40, skip)
    s.mem(VEC + 0x80, asm.w32(asm.csrrs(26, 0x141, 0), asm.addi(26, 26, 4), asm.csrrw(0, 0x141, 26), asm.SRET))
    s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
    ix = lambda n: gen.vpn(xlen, va + n * 0x1000, 0) * size
    out = []
    kinds = r.sample(("pte", "pte", "root", "status", "smc", "alias")
                     + (("pmpcfg", "pmpaddr", "trigger", "deleg", "vector") if direct else ()), r.randrange(2, 6))
    while len(out) < 150:
        k = r.choice(kinds)
        if k == "pte":
            change = asm.store(st, r.choice((31, 24)), r.randrange(10, 15), ix(r.randrange(3)))
            out += [asm.csrrw(7, 0x300, 0), change, asm.csrrw(0, 0x300, 7)] if direct else [change]
            if r.random() < .2:
                out.append(asm.sfence())
        elif k == "root":
            out.append(asm.csrrw(0, 0x180, r.choice((15, 16, 15, 16, 17) if direct else (15, 16))))
        elif k == "status":
            out.append(asm.csr(r.choice((1, 1, 2, 3)), 0, r.choice((18, 19, 20)), 0x300 if direct else 0x100))
        elif k == "pmpcfg":
            out.append(asm.csrrw(0, 0x3a0, r.choice((21, 22, 0))))
        elif k == "pmpaddr":
            out += [asm.csrrw(6, 0x3b0 + r.randrange(3), 9)] + ([asm.addi(9, 6, 0)] if r.random() < .7 else [])
        elif k == "trigger":
            out.append(r.choice((asm.csrrw(0, 0x7a1, r.choice((23, 23, 0))), asm.csrrw(0, 0x7a0, r.choice((0, 0, 25))),
                                 asm.csrrw(0, 0x7a2, r.choice((28, 29, 25))))))
        elif k == "smc":
            out.append(r.choice((asm.store(r.choice((2, 2, 1, 0)), 29, r.choice((8, 5, 10)), r.choice((0, 0, 4, 2))),
                                 asm.amo(r.choice((1, 1, 0, 4)), 4, 6, 29, 8))))
        elif k == "alias":
            out.append(asm.store(2, 30, 8, 0))
        elif k == "deleg":
            out.append(asm.csrrw(6, 0x302, r.choice((0, 8))))
        else:
            out.append(asm.csrrw(27, 0x305, 27))
        for _ in range(r.choice((1, 1, 2))):
            b = r.choice((28, 28, 29, 30))
            q = r.random()
            if q < .35:
                out.append(asm.load(r.choice((0, 2, 4, 1)), 5, b, r.choice((0, 8, 0x20))))
            elif q < .6:
                out.append(asm.store(r.choice((2, 0)), b, 5, r.choice((0, 8, 0x20))) if b == 28 else asm.load(2, 6, b, 4))
            elif q < .7:
                out.append(asm.amo(r.choice((2, 3, 0)), 4, 6, 28, 0))
            elif q < .8:
                out.append(r.choice((asm.ECALL, asm.EBREAK)))
            elif direct:
                # M-mode calls the instructions where they are
                out.append(asm.lui(26, (page if r.random() < .5 else other) >> 12 & 0xfffff))
                if xlen == 64:
                    out += [asm.slli(26, 26, 32), 32 << 20 | 26 << 15 | 5 << 12 | 26 << 7 | 0x13]
                out.append(asm.jalr(1, 26, 0))
            else:
                out.append(asm.jalr(1, r.choice((29, 29, 30)), 0))
    s.mem(CODE, asm.code(out[:240]))
    s.pc(CODE).priv(prv)


@check("C29")
def c29(c):
    r = rng(c)
    c.build()
    scens, keys = [], set()
    n = 400 if not c.thorough() else 8000
    length = 120
    for k in range(n):
        xlen = XL[k % 2]
        s = Scen("prog%d" % k, xlen)
        s.win(0x1000, 0x400).win(0x3000, 0x100)
        for i in range(1, 32):
            s.x(i, word(r, xlen))
        kind = ("plain", "paged", "smc", "user", "ptes", "interrupts", "pmp", "programs", "toggles", "toggles")[k // 2 % 10]
        if kind == "toggles":
            s.win(0x4000, 0x20).win(0x5000, 0x20)
            toggles(r, s, xlen)
            s.run(length + 80)
            keys.add((k, "toggles"))
            scens.append(s)
            continue
        handlers(r, s, xlen)
        s.mem(DATA, bytes(r.getrandbits(8) for _ in range(0x100)))
        prv, pc = 3, CODE
        bases = DATA
        if kind in ("paged", "ptes"):
            # code and data on separate pages; the tables themselves are mapped too
            va = 0x40000000
            fl = 0xcf | (gen.U_ if r.random() < .5 else 0)
            gen.chain(s, xlen, va + 0x1000, 0, gen.pte(CODE & ~0xfff, fl))
            gen.chain(s, xlen, va + 0x3000, 0, gen.pte(DATA & ~0xfff, fl))
            gen.chain(s, xlen, va + 0x5000, 0, gen.pte(gen.TABLES[0], fl & ~gen.X_))
            gen.chain(s, xlen, va + 0x6000, 0, gen.pte(0x80004000, 0))
            # trap handlers are in M-mode, or in S-mode through an identity page
            lv = gen.top(xlen)
            gen.put_pte(s, xlen, gen.TABLES[lv], gen.vpn(xlen, 0x80000000, lv), gen.pte(0x80000000, 0xcf))
            s.csr(0x180, gen.satp(xlen))
            prv, pc, bases = (0 if fl & gen.U_ else 1), va + 0x1000, va + 0x3000
            if r.random() < .5:
                s.csr(0x302, 0xb1ff)
        elif kind == "user":
            prv = r.choice((0, 1))
            s.csr(0x302, r.choice((0, 0xffff))).csr(0x306, 7).csr(0x106, 7)
        insts = []
        for j in range(60):
            insts.append(rand_inst(r, xlen, .02))
        if kind == "smc":
            # stores over instructions a little ahead or behind
            straddle = r.random() < .5
            for j in range(0, 60, 5):
                new = r.choice((asm.addi(5, 5, 1), asm.lui(9, 0x1234), 0x00010001, asm.add(10, 10, 11)))
                insts[j] = asm.lui(8, (new + 0x800) >> 12 & 0xfffff)
                insts[j + 1] = asm.addi(8, 8, new & 0xfff)
                insts[j + 2] = asm.auipc(9, 0)
                insts[j + 3] = asm.store(r.choice((2, 2, 1)), 9, 8, r.choice((4, 8, 12, 6, 4)))
                if r.random() < .5:
                    insts[j + 4] = asm.NOP
                if r.random() < .4:
                    # the immediate operand, in the upper half of an instruction already executed or to come
                    insts[j + 3] = asm.store(1, 9, r.choice((8, 31, 5)), r.choice((-6, -2, 10, 14)))
            if straddle:
                # every word of the program begins in the middle of an instruction
                insts.insert(0, (0x0001, 16))
                for j in range(6, 60, 12):
                    insts[j] = asm.addi(10, 10, r.randrange(2048))
        elif kind == "ptes":
            # change the mapping of the next page, use it at once, with and without a fence
            psz = 4 if xlen == 32 else 8
            ix = gen.vpn(xlen, 0x40006000, 0)
            st = 2 if xlen == 32 else 3
            for j in range(0, 56, 7):
                good = gen.pte(0x80004000 if r.random() < .5 else DATA & ~0xfff, r.choice((0xdf if fl & gen.U_ else 0xcf, 0, 0xc3, 0xc7 | fl)))
                insts[j:j + 7] = [asm.lui(8, (good + 0x800) >> 12 & 0xfffff), asm.addi(8, 8, good & 0xfff),
                                  asm.lui(9, 0x40005), asm.store(st, 9, 8, (ix * psz) & 0x7ff),
                                  r.choice((asm.NOP, asm.sfence())), asm.lui(9, 0x40006),
                                  r.choice((asm.load(2, 5, 9, 8), asm.store(2, 9, 5, 8), asm.jalr(1, 9, 0)))]
        elif kind == "pmp":
            s.csr(0x3b0, (DATA + 0x20) >> 2).csr(0x3b1, (DATA + 0x40) >> 2).csr(0x3b2, gen.M64 >> 10)
            for j in range(0, 56, 4):
                v = r.choice((0x1f8800, 0x1f8900, 0x1f8b00, 0x1f0000, 0x1f0800))
                insts[j:j + 4] = [asm.lui(8, v >> 12), asm.addi(8, 8, r.choice((0, 0x400))), asm.csrrw(0, 0x3a0, 8),
                                  r.choice((asm.load(2, 5, 28, 0x20), asm.store(2, 28, 5, 0x20), asm.load(2, 6, 28, 0x40)))]
        elif kind == "interrupts":
            prv = r.choice(PRV)
            s.csr(0x304, 0xaaa).csr(0x303, r.choice((0, 0x222, 0xaaa)))
            s.clint(0xbff8, 100).clint(0x4000, r.choice((100, 101, 90)))
            s.csr(0x300, r.choice((gen.MIE_ | gen.SIE_, 0, gen.MPIE | gen.SPIE)))
            # handlers disable the interrupt that got them there
            s.mem(VEC, asm.w32(asm.csrrs(26, 0x342, 0), asm.csrrw(0, 0x304, 0), asm.csrrw(0, 0x344, 0), asm.MRET))
            s.mem(VEC + 0x80, asm.w32(asm.csrrs(26, 0x142, 0), asm.csrrw(0, 0x104, 0), asm.csrrw(0, 0x144, 0), asm.SRET))
            for j in range(0, 60, 6):
                insts[j] = r.choice((asm.csrrs(5, 0x344, 6), asm.csrrs(5, 0x304, 6), asm.csr(6, 0, 8, 0x300), asm.csrrs(5, 0x144, 6)))
            s.x(6, r.choice((0x2, 0x8, 0x202, 0x22, 0x222)))
        for i in range(28, 32):
            s.x(i, bases + 0x20 * (i - 28))
        s.mem(CODE, asm.code(insts))
        s.pc(pc).priv(prv)
        if kind == "programs" or (kind == "smc" and straddle):
            # the same stretch again and again, with the state it left behind
            for _ in range(4):
                s.run(40)
                s.pc(pc).priv(r.choice(PRV))
        else:
            s.run(length)
            if kind == "interrupts":
                s.csr(0x304, 0xaaa).pc(pc).priv(prv).run(60)
        keys.add(tuple(i if isinstance(i, int) else i[0] for i in insts))
        scens.append(s)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct programs, every step of each checked")
