"""Privilege: C10 to C14, C16, C17."""
from . import asm, gen
from .checks import check, mc, rng, XL
from .gen import Packer, word, mask, CODE, DATA, VEC
from .core import Scen

PRV = (0, 1, 3)


def tvec(r, xlen):
    """a trap vector: random base, direct or vectored"""
    b = r.choice((VEC, 0x80000200, 0x80000ffc, word(r, xlen), 0, mask(xlen) - 3, mask(xlen) - 15)) & ~3
    return (b | r.choice((0, 1))) & mask(xlen)


def status(r, keep=gen.MIE_ | gen.SIE_ | gen.MPIE | gen.SPIE | gen.SPP | gen.MPP[3] | gen.SUM | gen.MXR | gen.TVM
           | gen.TW | gen.TSR):
    v = r.getrandbits(64) & keep
    if v & gen.MPP[3] == 2 << 11:
        v |= gen.MPP[3]
    return v


# ---------------------------------------------------------------- C10

@check("C10")
def c10(c):
    r = rng(c)
    c.build()
    for x in XL:
        c.model("MCTrap", "MCTrap%d.cfg" % x)
    p = Packer(c, r, per=50)
    reps = 4 if not c.thorough() else 150
    # name -> (cause, instruction, register pokes)
    kinds = {
        "fetchaf": 1, "illegal": 2, "break": 3, "loadmis": 4, "loadaf": 5, "storemis": 6, "storeaf": 7, "ecall": 8,
        "fetchpf": 12, "loadpf": 13, "storepf": 15}
    for xlen in XL:
        for kind, cause in kinds.items():
            for prv in PRV:
                for deleg in ("none", "all", "only", "allbut", "random"):
                    for _ in range(reps):
                        s = p.scen(xlen)
                        cz = 8 + prv if kind == "ecall" else cause
                        d = {"none": 0, "all": 0xffff, "only": 1 << cz, "allbut": 0xffff & ~(1 << cz),
                             "random": r.getrandbits(16)}[deleg]
                        st = status(r)
                        at = gen.code_addr(r)
                        s.csr(0x302, d).csr(0x303, r.choice((0, 0xfff, r.getrandbits(12))))
                        s.csr(0x305, tvec(r, xlen)).csr(0x105, tvec(r, xlen))
                        for a in (0x341, 0x342, 0x343, 0x141, 0x142, 0x143):
                            if r.random() < .5:
                                s.csr(a, word(r, xlen))
                        inst = {"illegal": 0xffffffff, "break": asm.EBREAK, "ecall": asm.ECALL,
                                "loadmis": asm.load(2, 5, 6, 1), "storemis": asm.store(2, 6, 7, 1),
                                "loadaf": asm.load(2, 5, 6, 0), "storeaf": asm.store(2, 6, 7, 0),
                                "loadpf": asm.load(2, 5, 6, 0), "storepf": asm.store(2, 6, 7, 0)}.get(kind, asm.NOP)
                        # somewhere that is nothing, or that is not mapped
                        gone = r.choice((0x20000000, 0x20000000 | r.getrandbits(24) & ~1, 0x20000ffe, 0x1ffffff6))
                        if kind.endswith("pf") and r.random() < .5:
                            gone = gen.random_va(r, xlen) & ~1
                            if gen.vpn(xlen, gone, gen.top(xlen)) == gen.vpn(xlen, 0x80000000, gen.top(xlen)):
                                gone = 0x20000002
                        s.x(6, DATA if kind in ("loadmis", "storemis") else gone & ~3)
                        if kind == "illegal":
                            inst = r.choice((inst, 0, 0xffff0000, 0x0000707f, 0x8000, 0x9c41, 0x12345057, 0xc0001073, 0x3a001073 | 0xfff << 20))
                        s.csr(0x180, 0)
                        if kind == "fetchaf":
                            at = gone
                        elif kind in ("fetchpf", "loadpf", "storepf"):
                            if kind == "fetchpf" and prv == 3:
                                continue
                            s.csr(0x180, gen.satp(xlen))
                            if kind != "fetchpf":
                                # code on a gigapage / megapage, data unmapped
                                lv = gen.top(xlen)
                                gen.put_pte(s, xlen, gen.TABLES[lv], gen.vpn(xlen, 0x80000000, lv),
                                            gen.pte(0x80000000, 0xcf | (gen.U_ if prv == 0 else 0)))
                                gen.put_pte(s, xlen, gen.TABLES[lv], gen.vpn(xlen, gone, lv), 0)
                                if prv == 3:
                                    st |= gen.MPRV
                                    st = st & ~gen.MPP[3] | gen.MPP[r.choice((0, 1))]
                            else:
                                at = gone
                                gen.put_pte(s, xlen, gen.TABLES[gen.top(xlen)], gen.vpn(xlen, gone, gen.top(xlen)), 0)
                        if at >> 28 == 8 and kind not in ("fetchaf", "fetchpf"):
                            s.mem(at, asm.w32(inst))
                        s.csr(0x300, st).priv(prv).pc(at).run(1)
                        p.note((xlen, kind, prv, deleg, st & 0x19aa))
        # interrupts: each cause, delegated or not, each mode
        for cause in (1, 3, 5, 7, 9, 11):
            for prv in PRV:
                for deleg in (0, 1 << cause, 0xfff, 0xfff & ~(1 << cause)):
                    for _ in range(reps):
                        s = p.scen(xlen)
                        at = gen.code_addr(r)
                        s.csr(0x180, 0).csr(0x303, deleg).csr(0x302, r.getrandbits(16))
                        s.csr(0x305, tvec(r, xlen)).csr(0x105, tvec(r, xlen))
                        for a in (0x341, 0x342, 0x343, 0x141, 0x142, 0x143):
                            if r.random() < .3:
                                s.csr(a, word(r, xlen))
                        t = cause in (5, 7)
                        s.clint(0xbff8, 100).clint(0x4000, 100 if t else 101)
                        s.csr(0x344, 1 << cause if not t else 0).csr(0x304, 1 << cause)
                        s.csr(0x300, status(r) | r.choice((0, gen.MIE_, gen.SIE_, gen.MIE_ | gen.SIE_)))
                        s.mem(at, asm.w32(r.choice((asm.addi(5, 5, 1), 0xffffffff, asm.ECALL))))
                        s.priv(prv).pc(at).run(1)
                        s.csr(0x304, 0).csr(0x344, 0)
                        p.note((xlen, "int", cause, prv, deleg))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, cause, mode, delegation, status stack)")


# ---------------------------------------------------------------- C11

@check("C11")
def c11(c):
    r = rng(c)
    c.build()
    if c.thorough():
        for x in XL:
            c.model("MCTrap", "MCTrap%d.cfg" % x)
    p = Packer(c, r, per=60)
    insts = [asm.MRET, asm.SRET]
    reps = 1 if not c.thorough() else 12
    for xlen in XL:
        for rep in range(reps):
            for inst in insts:
                for prv in PRV:
                    for tsr in (0, gen.TSR):
                        for tvm in (0, gen.TVM):
                            for mpp in (0, 1, 3):
                                for low in range(16):
                                    for spp in (0, gen.SPP):
                                        st = (tsr | tvm | gen.MPP[mpp] | spp | (gen.MIE_ if low & 1 else 0)
                                              | (gen.SIE_ if low & 2 else 0) | (gen.MPIE if low & 4 else 0)
                                              | (gen.SPIE if low & 8 else 0))
                                        if r.random() < .3:
                                            st |= gen.MPRV
                                        if r.random() < .2:
                                            st |= status(r, gen.SUM | gen.MXR | gen.TW | 3 << 13 | 3 << 15)
                                        s = p.scen(xlen)
                                        at = gen.code_addr(r)
                                        s.csr(0x341, word(r, xlen)).csr(0x141, word(r, xlen))
                                        if r.random() < .2:
                                            s.csr(0x301, r.choice((0x1101, 0x1105)))
                                        s.csr(0x300, st).mem(at, asm.w32(inst)).priv(prv).pc(at).run(1)
                                        p.note((xlen, inst, prv, st))
            # SFENCE.VMA in all its register forms, TW and WFI, and lookalikes
            for prv in PRV:
                for st in (0, gen.TSR, gen.TVM, gen.TSR | gen.TVM, gen.TW):
                    for (a, b) in ((0, 0), (0, 5), (5, 0), (5, 6), (31, 31)):
                        for inst in (asm.sfence(a, b), asm.sfence(a, b) | 5 << 7, asm.WFI, asm.MRET | a << 15,
                                     asm.SRET | b << 7, asm.SRET | a << 15):
                            s = p.scen(xlen)
                            at = gen.code_addr(r)
                            s.csr(0x300, st).mem(at, asm.w32(inst)).priv(prv).pc(at).run(1)
                            p.note((xlen, inst, prv, st))
    # a trap and its return restore the interrupted state
    scens = []
    for k in range(150 * reps):
        xlen = r.choice(XL)
        s = Scen("rt%d" % k, xlen)
        s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x40, asm.w32(asm.SRET))
        s.csr(0x305, VEC).csr(0x105, VEC + 0x40)
        for _ in range(6):
            at = gen.code_addr(r)
            prv = r.choice(PRV)
            # a return in S-mode must not be trapped by TSR
            s.csr(0x300, status(r) & ~gen.TSR).csr(0x302, r.choice((0, 0xffff, r.getrandbits(16))))
            s.mem(at, asm.w32(r.choice((asm.ECALL, asm.EBREAK, 0xffffffff)))).priv(prv).pc(at).run(2)
            # nested: trap in the handler of another trap
            if r.random() < .4:
                s.mem(VEC + 0x40, asm.w32(asm.ECALL, asm.SRET)).csr(0x302, 0x1ff)
                s.priv(0).pc(at).run(5).mem(VEC + 0x40, asm.w32(asm.SRET))
        scens.append(s)
    c.validate(p.out + scens)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, instruction, mode, mstatus)")


# ---------------------------------------------------------------- C12

RESET = {0x300: 0, 0x304: 0, 0x104: 0, 0x180: 0, 0x3a0: 0, 0x3a1: 0, 0x3a2: 0, 0x3a3: 0, 0x7a1: 0, 0x302: 0,
         0x303: 0, 0x305: VEC, 0x105: VEC + 0x80, 0x100: 0, 0x000: 0, 0x301: 0x14112d}


@check("C12")
def c12(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, per=80)

    def case(xlen, num, prv, f3, rd, a, st, mcnt, scnt):
        s = p.scen(xlen)
        at = gen.code_addr(r)
        s.csr(0x300, st).csr(0x306, mcnt).csr(0x106, scnt)
        if a and f3 < 4 and num in (0x306, 0x106) and r.random() < .5:
            s.x(a, word(r, xlen))
        s.mem(at, asm.w32(asm.csr(f3, rd, a, num))).priv(prv).pc(at).run(1)
        if num in RESET or num in (0x7a0, 0x7a2):
            for q, v in RESET.items():
                if q in (0x301,):
                    v = 0x40141105 if xlen == 32 else 0x8000000000141105
                s.csr(q, v)
        p.note((xlen, num, prv, f3, a != 0, rd != 0, st, bool(mcnt), bool(scnt)))

    pick = lambda: r.choice((0, gen.M32, r.getrandbits(32)))
    forms = [(f3, z) for f3 in (1, 2, 3, 5, 6, 7) for z in (0, 1)]
    for rep in range(1 if not c.thorough() else 10):
        for xlen in XL:
            for num in range(4096):
                for prv in PRV:
                    some = forms if c.thorough() and rep == 0 else [r.choice(forms)]
                    if num in range(0xc00, 0xc20):
                        some = [(2, 0), (r.choice((1, 5)), 0), (r.choice((3, 6, 7)), 1)]
                    for (f3, z) in some:
                        a = r.randrange(1, 32) if z else 0
                        rd = r.choice((0, a, r.randrange(32)))
                        case(xlen, num, prv, f3, rd, a, r.choice((0, gen.TVM, 0)), pick(), pick())
            # the interesting ones: every form, mode, and enable
            special = [0xc00, 0xc01, 0xc02, 0xc03, 0xc10, 0xc1f, 0xc20, 0xc80, 0xc81, 0xb00, 0xb02, 0xb03, 0x180, 0x100,
                       0x000, 0x14d, 0x300, 0x301, 0x30c, 0xf11, 0xf12, 0xf14, 0x3c0, 0x3ff, 0x3bf, 0x7a0, 0x7a4, 0x7b0,
                       0xd80, 0xdbf, 0xdc0, 0xf80, 0xfbf, 0xfc0, 0x5a8, 0x200, 0xa00, 0xe00]
            for num in special:
                bit = 1 << (num & 31)
                for prv in PRV:
                    for (f3, z) in forms:
                        for (m, sc) in ((0, 0), (bit, 0), (0, bit), (bit, bit), (gen.M32 & ~bit, gen.M32 & ~bit)):
                            if num not in range(0xc00, 0xc20) and (m, sc) != (bit, bit) and r.random() < .7:
                                continue
                            for st in ((0, gen.TVM) if num == 0x180 else (r.choice((0, gen.TVM)),)):
                                a = r.randrange(1, 32) if z else 0
                                case(xlen, num, prv, f3, r.choice((0, a, 7)), a, st, m, sc)
            # each counter with exactly its own enable bit
            for i in range(32):
                for prv in (0, 1):
                    for (m, sc) in ((1 << i, 1 << i), (1 << i, 0), (gen.M32 & ~(1 << i), gen.M32), (gen.M32, gen.M32 & ~(1 << i))):
                        case(xlen, 0xc00 + i, prv, 2, 5, 0, 0, m, sc)
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct),
              rule="distinct (xlen, CSR, mode, form, rs1/rd zero, TVM, enables); all 4096 addresses in all modes")


# ---------------------------------------------------------------- C13

@check("C13")
def c13(c):
    r = rng(c)
    c.build()
    for x in XL:
        c.model("MCCsr", "MCCsr%d.cfg" % x)
    scens = []
    keys = set()
    views = [0x300, 0x100, 0x000, 0x304, 0x104, 0x344, 0x144, 0x341, 0x141, 0x301, 0x180, 0x305, 0x105, 0x340, 0x140,
             0x342, 0x142, 0x343, 0x143, 0x302, 0x303, 0x306, 0x106, 0x3a0, 0x3b0, 0xb00, 0xb02, 0xb03, 0x7a0, 0x7a1,
             0x7a2]
    twins = {0x100: 0x300, 0x300: 0x100, 0x104: 0x304, 0x304: 0x104, 0x144: 0x344, 0x344: 0x144, 0x000: 0x300}
    reps = 260 if not c.thorough() else 9000
    k = 0

    def value(num, xlen):
        v = word(r, xlen)
        if num in (0x180,) and r.random() < .6:
            v = (r.choice((0, 1)) << 31 | r.getrandbits(31)) if xlen == 32 else r.randrange(16) << 60 | r.getrandbits(60)
        if num == 0x7a0:
            v = r.choice((0, 1, 7, 8, 9, 0x10000, r.randrange(8)))
        if num in (0x300, 0x100, 0x000) and r.random() < .5:
            v = r.choice((3 << 11, 2 << 11, 1 << 11, 0xf << 32, 3 << 32, 1 << 63, 1 << 31, 0x1aa, mask(xlen)))
        return v & mask(xlen)

    for xlen in XL:
        for _ in range(reps):
            s = Scen("rmw%d" % k, xlen)
            k += 1
            s.csr(0x305, VEC)
            # nothing may interrupt M-mode: everything delegated
            s.csr(0x303, 0xffff)
            s.clint(0x4000, gen.M64)
            focus = r.choice(views)
            pool = [focus, twins.get(focus, focus), r.choice(views)]
            for _ in range(10):
                num = r.choice(pool) if r.random() < .8 else r.randrange(4096)
                prv = 3
                if num >> 8 & 3 <= 1 and r.random() < .3:
                    prv = 1
                f3 = r.choice((1, 2, 3, 5, 6, 7))
                rd, a, _b = gen.regs3(r)
                v = value(num, xlen)
                at = CODE + 2 * r.randrange(16)
                if f3 < 4:
                    s.x(a, v)
                if num == 0x303 or focus == 0x303:
                    s.csr(0x304, 0)
                if prv == 1:
                    # do not let a delegated interrupt or paging get in the way of the access itself
                    if r.random() < .9:
                        s.csr(0x104, 0)
                    if r.random() < .9:
                        s.csr(0x180, 0)
                if num in (0x3a0,):
                    s.add("# pmp")
                s.mem(at, asm.w32(asm.csr(f3, rd, a, num))).priv(prv).pc(at).run(1)
                if num == 0x3a0 or num in (0x7a1, 0x7a2):
                    s.csr(0x3a0, 0).csr(0x7a1, 0)
                keys.add((xlen, num, f3, prv, a == 0, rd == 0, rd == a, v))
            scens.append(s)
        # every bit of every view, set, cleared, written, from each side
        for num in views[:11] + ([0x302, 0x303, 0x340, 0x343, 0x7a1] if not c.thorough() else views[11:]):
            for b in range(xlen):
                s = Scen("bit%d" % k, xlen)
                k += 1
                s.csr(0x305, VEC).csr(0x303, 0xffff).clint(0x4000, gen.M64)
                if num == 0x303:
                    s.csr(0x304, 0)
                bg = r.choice((0, mask(xlen)))
                s.csr(num, bg if num != 0x300 else bg & ~gen.MPRV)
                at = CODE
                prv = 1 if num >> 8 & 3 <= 1 and num not in (0x180, 0x104, 0x144) and r.random() < .4 else 3
                f3 = (1, 2, 3)[b % 3] if not c.thorough() else r.choice((1, 2, 3))
                s.x(6, 1 << b if r.random() < .7 else ~(1 << b))
                s.mem(at, asm.w32(asm.csr(f3, 5, 6, num), asm.csr(2, 7, 0, twins.get(num, num))))
                s.priv(prv).pc(at).run(1).priv(3).run(1)
                keys.add((xlen, num, b, f3, prv, bg))
                scens.append(s)
    for s in scens:
        s.lines = [l for l in s.lines if not l.startswith("#")]
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, CSR, form, mode, aliasing, value)")


# ---------------------------------------------------------------- C14

@check("C14")
def c14(c):
    """all combinations of the six causes' pending-and-enabled, delegation, mode and global enables"""
    r = rng(c)
    c.build()
    for x in XL if c.thorough() else (64,):
        c.model("MCTrap", "MCInt%d.cfg" % x)
    p = Packer(c, r, per=100, wins=((0x1000, 0x20),))
    causes = (1, 3, 5, 7, 9, 11)

    def bits(m):
        return sum(1 << causes[i] for i in range(6) if m >> i & 1)
    n = 0
    for rep in range(1 if not c.thorough() else 6):
        for pend in range(64):
            for dl in range(64):
                for prv in PRV:
                    for g in range(4):
                        n += 1
                        for xlen in (XL if c.thorough() else (XL[(n ^ n >> 2 ^ n >> 4) & 1],)):
                            s = p.scen(xlen)
                            s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
                            st = (gen.MIE_ if g & 1 else 0) | (gen.SIE_ if g & 2 else 0)
                            if r.random() < .2:
                                st |= status(r) & ~(gen.MIE_ | gen.SIE_)
                            t = bool(pend & 0b1100)
                            # by withholding the enable, or by withholding the pending bit
                            how = r.randrange(3)
                            if how == 0:
                                mip, mie = r.choice((bits(63), 0xfff, gen.M32)), bits(pend)
                                t = True
                            elif how == 1 and pend & 0b1100 in (0, 0b1100):
                                mip, mie = bits(pend), r.choice((bits(63), 0xfff, mask(xlen)))
                            else:
                                extra = r.randrange(64)
                                mip, mie = bits(pend | extra), bits(pend | (r.randrange(64) & ~extra & 0b110011))
                                if t or extra & 0b1100:
                                    t = True
                                    mie = mie & ~bits(0b1100) | bits(pend & 0b1100)
                            if not t and r.random() < .5:
                                mip |= bits(r.randrange(4) << 2)    # the timer is not there yet
                            s.clint(0xbff8, 500).clint(0x4000, 500 if t else 501)
                            s.csr(0x344, mip).csr(0x304, mie).csr(0x303, bits(dl) | (r.getrandbits(16) & 0xf555 if r.random() < .2 else 0))
                            at = gen.code_addr(r)
                            s.mem(at, asm.w32(asm.addi(5, 5, 1)))
                            s.csr(0x300, st).priv(prv).pc(at).run(1)
                            p.note((xlen, pend, dl, prv, g))
    # sequences: handlers, nesting, enabling by instructions
    scens = []
    for k in range(160 if not c.thorough() else 2500):
        xlen = r.choice(XL)
        s = Scen("seq%d" % k, xlen)
        s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
        s.mem(VEC, asm.w32(r.choice((asm.csrrw(0, 0x304, 0), asm.NOP)), asm.MRET))
        s.mem(VEC + 0x80, asm.w32(r.choice((asm.csrrw(0, 0x104, 0), asm.NOP)), asm.SRET))
        s.csr(0x303, bits(r.randrange(64))).clint(0xbff8, 10).clint(0x4000, r.choice((9, 10, 11)))
        prog = []
        for _ in range(14):
            prog.append(r.choice((asm.addi(5, 5, 1), asm.csr(6, 0, 8, 0x300), asm.csr(7, 0, 8, 0x300), asm.csr(6, 0, 2, 0x100),
                                  asm.csrrs(6, 0x304, 7), asm.csrrs(6, 0x344, 8), asm.csrrc(6, 0x344, 8), asm.csrrs(6, 0x144, 8),
                                  asm.csrrs(6, 0x104, 7), asm.WFI, asm.csrrw(6, 0x303, 9), asm.ECALL, asm.csrrw(9, 0x300, 10))))
        s.x(7, bits(r.randrange(64))).x(8, bits(r.randrange(64))).x(9, bits(r.randrange(64)))
        s.x(10, status(r) & ~gen.MPRV)
        wired = k % 2 == 1
        if wired:
            # external interrupts from the controller, for either or both modes
            s.mem(0x80009000, asm.w32(*[asm.store(2, 20 + 2 * j, 21 + 2 * j, 0) for j in range(4)]))
            for j, (a, v) in enumerate(((4, 1), (0x2000, 2 * r.randrange(2)), (0x2080, 2 * r.randrange(2)), (0x200000 + 0x1000 * r.randrange(2), r.choice((0, 0, 2))))):
                s.x(20 + 2 * j, 0xc000000 + a).x(21 + 2 * j, v)
            s.priv(3).csr(0x300, 0).pc(0x80009000).run(4).level(1, 1)
            if r.random() < .5:
                prog[2:2] = [asm.load(2, 11, r.choice((12, 13)), 0)]
                s.x(12, 0xc200004).x(13, 0xc201004)
        s.mem(CODE, asm.w32(*prog)).pc(CODE).priv(r.choice(PRV)).csr(0x300, status(r)).csr(0x304, bits(r.randrange(64)))
        for _ in range(6):
            s.run(10)
            if wired:
                s.level(1, r.randrange(2))
        scens.append(s)
    c.validate(p.out + scens)
    return mc(c, distinct_nontrivial=len(p.distinct),
              rule="distinct (xlen, pending and enabled set, delegated set, mode, MIE/SIE): all 49152 combinations",
              input_space=49152)


# ---------------------------------------------------------------- C16

@check("C16")
def c16(c):
    r = rng(c)
    c.build()
    c.model("MCPte")
    for x in XL:
        c.model("MCWalk", "MCWalk%d.cfg" % x)
    p = Packer(c, r, per=60, wins=((0x1000, 0x20), (0x3000, 0x100)))
    reps = 1 if not c.thorough() else 12

    def target(level, xlen):
        return DATA + 8 * r.randrange(32)

    def access(s, xlen, kind, va, prv, st, direct):
        """perform one access to va as mode prv"""
        at = gen.code_addr(r)
        s.x(6, va).x(7, r.getrandbits(64))
        f = r.choice((0, 1, 2) + ((3,) if xlen == 64 else ()))
        s.csr(0x302, r.choice((0, 0, 0xffff, r.getrandbits(16))))
        if kind == "r":
            inst = asm.load(r.choice((f, f | 4 if f < 2 else f)), 5, 6, 0)
        elif kind == "w":
            inst = asm.store(f, 6, 7, 0)
        elif kind == "amo":
            inst = asm.amo(r.choice((0, 1, 2, 3, 4)), 4, 5, 6, 0)
        if kind == "x":
            s.csr(0x300, st).priv(prv).pc(va).run(1)
            return
        if direct:
            # code runs in prv itself, on its own page
            cva = 0x12345000 if xlen == 32 else 0x1234565000
            flags = gen.V_ | gen.R_ | gen.X_ | gen.A_ | (gen.U_ if prv == 0 else 0)
            gen.chain(s, xlen, cva, 0, gen.pte(CODE & ~0xfff, flags))
            s.mem(at, asm.w32(inst)).csr(0x300, st).priv(prv).pc(cva | at & 0xfff).run(1)
        else:
            s.mem(at, asm.w32(inst)).csr(0x300, st | gen.MPRV | gen.MPP[prv]).priv(3).pc(at).run(1)

    def mapping(s, xlen, level, flags, va=None):
        pa = target(level, xlen)
        base = pa & ~(gen.span(xlen, level) - 1)
        va = gen.random_va(r, xlen) if va is None else va
        va = (va & ~(gen.span(xlen, level) - 1) | pa & (gen.span(xlen, level) - 1)) & mask(xlen)
        gen.chain(s, xlen, va, level, gen.pte(base, flags | (r.choice((0, 0x100, 0x300)) if r.random() < .2 else 0)))
        return va

    for xlen in XL:
        # every flag byte x access x mode x SUM x MXR, at a random level, direct or through MPRV
        for rep in range(reps):
            for flags in range(256):
                for kind in ("r", "w", "x"):
                    for prv in (0, 1):
                        for sm in range(4):
                            if not c.thorough() and flags & 0x20 and sm in (1, 2):
                                continue
                            s = p.scen(xlen)
                            st = (gen.SUM if sm & 1 else 0) | (gen.MXR if sm & 2 else 0)
                            level = r.randrange(gen.top(xlen) + 1)
                            va = mapping(s, xlen, level, flags)
                            s.csr(0x180, gen.satp(xlen, asid=r.choice((0, 1))))
                            if kind == "x":
                                s.mem(DATA, asm.w32(*[asm.addi(5, 5, 1)] * 64))
                                va &= ~3
                            k = "amo" if kind == "w" and r.random() < .2 else kind
                            if k == "amo":
                                va &= ~3
                            access(s, xlen, k, va, prv, st, r.random() < .3)
                            s.csr(0x300, 0)
                            p.note((xlen, flags, kind, prv, sm, level))
        # shapes of the walk; each bit of a superpage's number below its size by itself
        width = 10 if xlen == 32 else 9
        bits = [(l, b) for l in range(1, gen.top(xlen) + 1) for b in range(width * l)]
        for shaped in bits * reps + [None] * 260 * reps:
            s = p.scen(xlen)
            kind = r.choice(("r", "w", "x"))
            prv = r.choice((0, 1))
            good = 0xcf | (gen.U_ if prv == 0 else 0)
            shape = r.choice(("misaligned-super", "pointer-at-0", "nonleaf-bits", "outside", "noncanon", "root-outside",
                              "bare", "badmode", "mmode", "highpa", "wx-only", "pbmt", "self", "replace", "root-change",
                              "crossing", "two", "mprv-m")) if shaped is None else "misaligned-super"
            va = gen.random_va(r, xlen)
            st = r.choice((0, gen.SUM, gen.MXR))
            sat = gen.satp(xlen)
            direct = r.random() < .3
            if kind == "x":
                s.mem(DATA, asm.w32(*[asm.addi(5, 5, 1)] * 64))
            if shape == "misaligned-super":
                level = shaped[0] if shaped else r.randrange(1, gen.top(xlen) + 1)
                low = 1 << shaped[1] if shaped else r.choice((r.getrandbits(width * level), 9))
                if low == 9:        # parts that add up to nothing
                    low = r.randrange(1, 1 << width)
                    low = low << width * (level - 1) | ((1 << width) - low if level == 2 else 0)
                base = (DATA & ~(gen.span(xlen, level) - 1)) | low << 12
                gen.chain(s, xlen, va, level, gen.pte(base, good))
            elif shape == "pointer-at-0":
                gen.chain(s, xlen, va, 0, gen.pte(0x80013000, r.choice((1, 0x11, 0xc1, 0xd1))))
            elif shape == "nonleaf-bits":
                for l in range(gen.top(xlen), 0, -1):
                    gen.put_pte(s, xlen, gen.TABLES[l], gen.vpn(xlen, va, l),
                                gen.pte(gen.TABLES[l - 1], 1 | r.choice((0x10, 0x40, 0x80, 0xf0, 0x300, 0x20))))
                gen.put_pte(s, xlen, gen.TABLES[0], gen.vpn(xlen, va, 0), gen.pte(DATA, good))
            elif shape == "outside":
                gen.chain(s, xlen, va, 0, gen.pte(DATA, good))
                l = r.randrange(1, gen.top(xlen) + 1)
                gen.put_pte(s, xlen, gen.TABLES[l], gen.vpn(xlen, va, l),
                            gen.pte(r.choice((0, 0x1000, 0x10000000, 0x2000000, 0xc000000, 0x7ffff000, 0x100000000,
                                              0x3fffff000, 0xfffffffffff000 if xlen == 64 else 0x300000000)), 1))
            elif shape == "noncanon":
                if xlen == 32:
                    continue
                b = gen.random_va(r, 64)
                gen.chain(s, xlen, b, 0, gen.pte(DATA, good))
                va = b ^ (1 << r.randrange(39, 64)) if r.random() < .6 else (b & (1 << 39) - 1 | r.getrandbits(25) << 39)
                va |= r.choice((0, 2))
            elif shape == "root-outside":
                sat = gen.satp(xlen, root=r.choice((0x1000, 0x10000000, 0x7ffff000, 0x100000000, 0x3fffff000)))
            elif shape == "bare":
                sat = gen.satp(xlen) & (0x7fffffff if xlen == 32 else (1 << 60) - 1)
                va = DATA
            elif shape == "badmode":
                if xlen == 32:
                    continue
                sat = gen.satp(xlen) & (1 << 60) - 1 | r.choice((1, 7, 9, 10, 15)) << 60
                s.csr(0x180, 0)
                va = r.choice((DATA, va))
            elif shape == "mmode":
                s.csr(0x180, sat).x(6, r.choice((DATA, va))).mem(CODE, asm.w32(asm.load(2, 5, 6, 0)))
                s.csr(0x300, st | r.choice((0, gen.MPP[1]))).priv(3).pc(CODE).run(1)
                s.csr(0x300, 0)
                continue
            elif shape == "highpa":
                gen.chain(s, xlen, va, 0, gen.pte(r.choice((0x180003000, 0x280003000, 0x380003000, 0x2000000, 0x10000000, 0xc000000,
                                                            0x1000, 0x800080003000 if xlen == 64 else 0x100003000)), good))
                va |= r.choice((0, 4, 0x100))
            elif shape == "wx-only":
                gen.chain(s, xlen, va, 0, gen.pte(DATA, good & ~gen.R_ & ~r.choice((0, gen.X_))))
            elif shape == "pbmt":
                if xlen == 32:
                    continue
                gen.chain(s, xlen, va, 0, gen.pte(DATA, good) | r.choice((1 << 54, 1 << 61, 1 << 63, 0x3ff << 54)))
            elif shape == "self":
                # a table that is its own next level
                l = gen.top(xlen)
                t = gen.TABLES[l]
                i = r.choice((0, 1, 0x1ff, 2))
                gen.put_pte(s, xlen, t, i, gen.pte(t, 1))
                j = r.choice((3, 4))
                gen.put_pte(s, xlen, t, j, gen.pte(DATA, good))
                va = (i << 22 | j << 12) if xlen == 32 else (i << 30 | i << 21 | j << 12)
                if xlen == 64 and va >> 38 & 1:
                    va |= 0xffffff8000000000
            elif shape in ("replace", "root-change"):
                # the same address twice, the tables changed in between without a fence
                gen.chain(s, xlen, va, 0, gen.pte(DATA, good))
                s.csr(0x180, sat)
                access(s, xlen, kind, va, prv, st, False)
                s.csr(0x300, 0)
                if shape == "replace":
                    gen.chain(s, xlen, va, 0, gen.pte(r.choice((DATA, 0x80004000)), r.choice((good, 0, good & ~gen.A_, good ^ gen.U_))))
                else:
                    gen.chain(s, xlen, va, 0, gen.pte(0x80004000, good), tables=gen.ALT)
                    sat = gen.satp(xlen, tables=gen.ALT, asid=r.choice((0, 1)))
                    s.mem(0x80004000, asm.w32(asm.addi(6, 6, 1)))
            elif shape == "crossing":
                # an instruction across two pages
                kind = "x"
                va &= ~0x1000
                va2 = va + 0x1000
                i = asm.w32(r.choice((asm.lui(5, 0x12345), asm.addi(5, 5, 77))))
                s.mem(0x80004ffe, i[:2]).mem(0x80008000, i[2:]).mem(0x80005000, b"\xff\xff")
                gen.chain(s, xlen, va, 0, gen.pte(0x80004000, good))
                gen.chain(s, xlen, va2, 0, gen.pte(0x80008000, r.choice((good, good, good & ~gen.X_, 0, good ^ gen.U_))))
                va += 0xffe
            elif shape == "two":
                gen.chain(s, xlen, va, 0, gen.pte(DATA, good))
                gen.chain(s, xlen, va ^ 0x2000, 0, gen.pte(DATA, good & r.getrandbits(8)))
                va ^= 0x2000
            elif shape == "mprv-m":
                s.csr(0x180, sat).x(6, DATA).mem(CODE, asm.w32(asm.load(2, 5, 6, 0)))
                s.csr(0x300, st | gen.MPRV | gen.MPP[3]).priv(3).pc(CODE).run(1)
                # and with MPRV in S-mode, which has its say over loads there too
                gen.chain(s, xlen, va, 0, gen.pte(CODE & ~0xfff, 0xcf))
                s.csr(0x300, st | gen.MPRV | gen.MPP[r.choice((0, 1, 3))]).priv(1).pc(va).run(1)
                s.csr(0x300, 0)
                continue
            s.csr(0x180, sat)
            access(s, xlen, kind, va, prv, st, direct)
            s.csr(0x300, 0)
            p.note((xlen, shape, kind, prv, st))
        # every bit of the virtual page number and of the physical page number is used
        for bit in range(12, 32 if xlen == 32 else 39):
            for kind in ("r", "w", "x"):
                s = p.scen(xlen)
                prv = r.choice((0, 1))
                va = gen.random_va(r, xlen)
                good = 0xcf | (gen.U_ if prv == 0 else 0)
                gen.chain(s, xlen, va, 0, gen.pte(DATA, good))
                o = va ^ 1 << bit
                if xlen == 64 and bit == 38:
                    o = (o ^ 0xffffff8000000000 if True else o) & gen.M64
                gen.chain(s, xlen, o, 0, gen.pte(0x80005000, good))
                s.csr(0x180, gen.satp(xlen))
                access(s, xlen, kind, va, prv, 0, False)
                s.csr(0x300, 0)
                p.note((xlen, "vbit", bit, kind))
        # one bit of a leaf, of a pointer, or of satp: another physical address, mostly outside memory
        for bit in range(10, 54 if xlen == 64 else 32):
            for where in ("leaf", "pointer", "root") * (1 if not c.thorough() else 4):
                if where == "root" and bit - 10 >= (44 if xlen == 64 else 22):
                    continue
                s = p.scen(xlen)
                va = gen.random_va(r, xlen)
                level = r.randrange(gen.top(xlen) + 1) if where == "leaf" and r.random() < .3 else 0
                base = DATA & ~(gen.span(xlen, level) - 1)
                va = va & ~(gen.span(xlen, level) - 1) & mask(xlen) | DATA & (gen.span(xlen, level) - 1)
                prv = r.choice((0, 1))
                leaf = gen.pte(base, 0xcf | (gen.U_ if prv == 0 else 0))
                sat = gen.satp(xlen)
                gen.chain(s, xlen, va, level, leaf ^ (1 << bit if where == "leaf" else 0))
                if where == "pointer":
                    l = r.randrange(1, gen.top(xlen) + 1)
                    gen.put_pte(s, xlen, gen.TABLES[l], gen.vpn(xlen, va, l), gen.pte(gen.TABLES[l - 1], 1) ^ 1 << bit)
                elif where == "root":
                    sat ^= 1 << bit - 10
                s.csr(0x180, sat)
                access(s, xlen, r.choice("rwx"), va + 8 * r.randrange(30), prv, 0, False)
                s.csr(0x300, 0)
                p.note((xlen, "pbit", bit, where))
        # every bit of the offset in a large page
        for level in range(1, gen.top(xlen) + 1):
            for bit in range(12, gen.span(xlen, level).bit_length() - 1):
                s = p.scen(xlen)
                va = (gen.random_va(r, xlen) & ~(gen.span(xlen, level) - 1)) & mask(xlen)
                gen.chain(s, xlen, va, level, gen.pte(0x80000000, 0xcf))
                s.csr(0x180, gen.satp(xlen)).mem(0x80000000 | 1 << bit | 0x230, bytes(r.getrandbits(8) for _ in range(8)))
                access(s, xlen, "r", va | 1 << bit | 0x230, 1, 0, False)
                access(s, xlen, "w", va | 1 << bit | 0x238, 1, 0, False)
                s.csr(0x300, 0)
                p.note((xlen, "obit", level, bit))
        # one wrong bit above the translated ones, where the rest is mapped
        for bit in range(38, 64) if xlen == 64 else ():
            for kind in ("r", "w", "x"):
                s = p.scen(xlen)
                prv = r.choice((0, 1))
                va = gen.random_va(r, xlen) ^ 1 << bit | r.choice((0, 2, 4, 6))
                gen.chain(s, xlen, va, 0, gen.pte(DATA, 0xcf | (gen.U_ if prv == 0 else 0)))
                s.csr(0x180, gen.satp(xlen))
                access(s, xlen, kind, va, prv, 0, False)
                s.csr(0x300, 0)
                p.note((xlen, "canon", bit, kind))
        for bit in range(12, 31):
            s = p.scen(xlen)
            va = gen.random_va(r, xlen)
            pa = 0x80000000 | 1 << bit
            if pa in gen.TABLES.values():
                pa |= 0x40000
            gen.chain(s, xlen, va, 0, gen.pte(pa, 0xdf))
            s.csr(0x180, gen.satp(xlen))
            access(s, xlen, "w", va + 8 * r.randrange(500), 0, 0, False)
            access(s, xlen, "r", va + 8 * r.randrange(500), 0, 0, False)
            s.csr(0x300, 0)
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct),
              rule="distinct (xlen, PTE flags, access, mode, SUM/MXR, level) and (walk shape, access, mode)")


# ---------------------------------------------------------------- C17

def pmp_cfg(s, xlen, cfg):
    """cfg: 16 bytes"""
    if xlen == 32:
        for i in range(4):
            s.csr(0x3a0 + i, int.from_bytes(bytes(cfg[4 * i:4 * i + 4]), "little"))
    else:
        for i in range(2):
            s.csr(0x3a0 + 2 * i, int.from_bytes(bytes(cfg[8 * i:8 * i + 8]), "little"))


@check("C17")
def c17(c):
    r = rng(c)
    c.build()
    for k in ("Q",) if not c.thorough() else ("64_0", "32_3", "64_7"):
        c.model("MCPmp", "MCPmp%s.cfg" % k)
    p = Packer(c, r, per=40, wins=((0x1000, 0x40), (0x3000, 0x100)))
    reps = 1 if not c.thorough() else 14

    def napot(base, size):
        return base >> 2 | (size >> 3) - 1

    def access(s, xlen, kind, addr, prv):
        at = gen.code_addr(r)
        s.x(6, addr).x(7, r.getrandbits(64))
        f = r.choice((0, 1, 2) + ((3,) if xlen == 64 else ()))
        a = addr & ~((1 << f) - 1)
        s.x(6, a)
        if kind == "x":
            s.csr(0x300, 0).priv(prv).pc(addr & ~1).run(1)
            return
        inst = {"r": asm.load(f, 5, 6, 0), "w": asm.store(f, 6, 7, 0), "amo": asm.amo(r.choice((0, 1, 2, 3)), 4, 5, 6, 0)}[kind]
        if kind == "amo":
            s.x(6, addr & ~3)
        s.mem(at, asm.w32(inst))
        how = r.randrange(3)
        if prv == 3 or how == 0:
            s.csr(0x300, 0).priv(prv).pc(at).run(1)
        else:
            s.csr(0x300, gen.MPRV | gen.MPP[prv]).priv(3).pc(at).run(1)

    for xlen in XL:
        nops = asm.w32(*[asm.addi(5, 5, 1)] * 64)
        # one decisive entry: every mode of matching x permission x lock x access mode, at its edges
        for _ in range(reps):
            for amode in (0, 1, 2, 3):
                for perm in range(8):
                    for lock in (0, 0x80):
                        for prv in PRV:
                            for kind in ("r", "w", "x", "amo") if perm in (1, 2, 3, 7) else ("r", "w", "x"):
                                if r.random() < .35 and not c.thorough():
                                    continue
                                s = p.scen(xlen)
                                s.mem(DATA, nops)
                                cfg, adr = [0] * 16, [0] * 16
                                i = r.choice((0, 1, 2, 3, 7, 8, 14, 15, r.randrange(16)))
                                size = r.choice((8, 16, 32, 64)) if amode == 3 else 4 if amode == 2 else r.choice((4, 12, 32))
                                base = DATA + 0x40 * r.randrange(1, 3)
                                cfg[i] = lock | amode << 3 | perm | r.choice((0, 0, 0x60))
                                if amode == 3:
                                    adr[i] = napot(base, size)
                                else:
                                    adr[i] = base >> 2
                                if amode == 1:
                                    adr[i] = (base + size) >> 2
                                    if i:
                                        adr[i - 1] = base >> 2
                                # something below that lets the rest through or not
                                if i < 15 and r.random() < .7:
                                    j = r.randrange(i + 1, 16)
                                    cfg[j] = 0x18 | r.choice((7, 7, r.randrange(8)))
                                    adr[j] = gen.M64 >> 10
                                if i and r.random() < .5:
                                    j = r.randrange(i)
                                    if not (amode == 1 and j == i - 1):
                                        cfg[j] = 0x18 | 7
                                        adr[j] = napot(CODE & ~0xfff, 0x1000)
                                for q in range(16):
                                    s.csr(0x3b0 + q, adr[q])
                                pmp_cfg(s, xlen, cfg)
                                edge = r.choice((base - 8, base - 4, base, base + size - 4, base + size, base + size + 4,
                                                 base + size // 2))
                                access(s, xlen, kind, edge, prv)
                                pmp_cfg(s, xlen, [0] * 16)
                                s.csr(0x300, 0)
                                p.note((xlen, amode, perm, lock, prv, kind, edge - base, i))
        # random files of entries
        for _ in range(700 * reps):
            s = p.scen(xlen)
            s.mem(DATA, nops)
            cfg, adr = [], []
            for i in range(16):
                am = r.choice((0, 0, 1, 2, 3))
                cfg.append(r.choice((0, 0, 0x80)) | am << 3 | r.randrange(8))
                if am == 3:
                    adr.append(r.choice((napot(DATA, 8 << r.randrange(8)), napot(DATA + 0x40, 0x40), napot(0x80000000, 1 << 31),
                                         gen.M64, gen.M64 >> 1, gen.M64 >> 10, napot(CODE, 0x1000), gen.M32)))
                else:
                    adr.append(r.choice((DATA + 4 * r.randrange(-4, 68), CODE, CODE + 0x1000, 0x80000000, 0, 0x100000000)) >> 2)
            k = r.randrange(4)
            if k == 0:
                cfg[0], adr[0] = 0x1f, napot(CODE & ~0xfff, 0x1000)
            elif k == 1:
                for i in range(16):
                    if r.random() < .8:
                        cfg[i] = 0
            for q in range(16):
                s.csr(0x3b0 + q, adr[q])
            pmp_cfg(s, xlen, cfg)
            for _ in range(r.randrange(1, 4)):
                prv = r.choice(PRV)
                kind = r.choice(("r", "w", "x", "amo"))
                access(s, xlen, kind, DATA + 4 * r.randrange(64), prv)
                p.note((xlen, tuple(cfg), tuple(adr), prv, kind))
            pmp_cfg(s, xlen, [0] * 16)
            s.csr(0x300, 0)
        # inactive: no entries, entries that are all OFF
        for _ in range(60 * reps):
            s = p.scen(xlen)
            s.mem(DATA, nops)
            pmp_cfg(s, xlen, [r.choice((0, 0x80, 7, 0x87, 0x60, 0xe7)) for _ in range(16)])
            for q in range(16):
                s.csr(0x3b0 + q, word(r, xlen))
            access(s, xlen, r.choice("rwx"), DATA + 4 * r.randrange(64), r.choice(PRV))
            s.csr(0x300, 0)
        # the address is the physical one: the page is elsewhere
        for _ in range(60 * reps):
            s = p.scen(xlen)
            s.mem(DATA, nops)
            va = gen.random_va(r, xlen)
            gen.chain(s, xlen, va, 0, gen.pte(DATA, 0xdf))
            s.csr(0x180, gen.satp(xlen))
            cfg, adr = [0] * 16, [0] * 16
            cfg[0], adr[0] = 0x18 | r.randrange(8), napot(DATA, 0x80)
            cfg[1], adr[1] = 0x18 | r.choice((7, 0)), r.choice((napot(va & gen.M32 & ~0xfff, 0x1000), gen.M64 >> 10))
            cfg[2], adr[2] = 0x1f, gen.M64 >> 10
            for q in range(16):
                s.csr(0x3b0 + q, adr[q])
            pmp_cfg(s, xlen, cfg)
            at = gen.code_addr(r)
            kind = r.choice("rwx")
            o = 4 * r.randrange(64)
            if kind == "x":
                s.csr(0x300, 0).priv(0).pc(va + o).run(1)
            else:
                s.x(6, va + o).mem(at, asm.w32(asm.load(2, 5, 6, 0) if kind == "r" else asm.store(2, 6, 7, 0)))
                s.csr(0x300, gen.MPRV | gen.MPP[0]).priv(3).pc(at).run(1)
            pmp_cfg(s, xlen, [0] * 16)
            s.csr(0x300, 0).csr(0x180, 0)
            p.note((xlen, "paged", kind, cfg[0], cfg[1]))
    c.validate(p.out)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, entries, access, mode, position at the edges)")
