"""Devices and the memory map: C15, C18 to C22."""
from . import asm, gen, walk
from .checks import check, mc, rng, XL
from .gen import Packer, word, mask, CODE, DATA, VEC
from .core import Scen

MTIME, MTIMECMP = 0x200bff8, 0x2004000
PLIC, UART = 0xc000000, 0x10000000


class Ops:
    """device accesses by guest instructions, from a small stub"""

    def __init__(self, r, s):
        self.r, self.s = r, s
        s.mem(CODE, asm.w32(
            asm.load(0, 5, 6, 0), asm.load(1, 5, 6, 0), asm.load(2, 5, 6, 0), asm.load(3, 5, 6, 0),
            asm.load(4, 5, 6, 0), asm.load(5, 5, 6, 0), asm.load(6, 5, 6, 0), asm.NOP,
            asm.store(0, 6, 7, 0), asm.store(1, 6, 7, 0), asm.store(2, 6, 7, 0), asm.store(3, 6, 7, 0),
            asm.NOP, asm.NOP, asm.NOP, asm.SELF) + b"\x01\x00" + asm.w32(asm.SELF))
        self.waits = r.choice((0x3c, 0x42))     # either half of a word

    def load(self, f3, addr):
        self.s.pc(CODE + 4 * f3).x(6, addr).run(1)

    def store(self, f3, addr, v):
        self.s.pc(CODE + 0x20 + 4 * f3).x(6, addr).x(7, v & gen.M64).run(1)

    def nop(self, n=1):
        for _ in range(n):
            self.s.pc(CODE + 0x30).run(1)

    def spin(self, n):
        self.s.pc(CODE + self.waits).spin(n)


# ---------------------------------------------------------------- C15

@check("C15")
def c15(c):
    r = rng(c)
    c.build()
    scens = []
    keys = set()
    n = 700 if not c.thorough() else 8000
    edges = [0, 1, 49, 50, 51, 99, 100, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1 << 63, (1 << 63) - 1, gen.M64,
             gen.M64 - 1, gen.M64 - 50, 0xffffffff00000000, 0x7fffffffffffffff, 0x100000032]
    for k in range(n):
        xlen = XL[k % 2]
        s = Scen("t%d" % k, xlen)
        s.win(0x3000, 0x10)
        s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
        s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x80, asm.w32(asm.SRET))
        o = Ops(r, s)
        # some clocks tick onto an edge exactly
        base = r.choice(edges) - r.choice((0, 0, 50, 100)) & gen.M64
        s.clint(0xbff8, base).clint(0x4000, (base + r.choice((0, 1, -1, 50, 49, 51, 100, 1 << 31, 1 << 32, 1 << 63))) & gen.M64)
        if r.random() < .5:
            s.clint(0x4000, r.choice(edges))
        ints = r.random() < .4
        if ints:
            s.csr(0x304, r.choice((0x80, 0x20, 0xa0, 0xfff))).csr(0x303, r.choice((0, 0x20, 0x80, 0xa0)))
            s.csr(0x300, r.choice((0, gen.MIE_, gen.SIE_)))
        cnt = 0
        for _ in range(r.randrange(4, 16)):
            act = r.choice(("cmp", "cmp", "time", "read", "nop", "spin", "bound", "bound", "poke", "ticks"))
            v = r.choice(edges) - r.choice((0, 50, 100)) & gen.M64 if r.random() < .5 else (base + r.randrange(-120, 200)) & gen.M64
            s.priv(3)
            m = 1
            if act in ("cmp", "time"):
                a = MTIMECMP if act == "cmp" else MTIME
                if xlen == 64 and r.random() < .6:
                    o.store(3, a, v)
                else:
                    half = r.choice((0, 4))
                    o.store(2, a + half, v >> (8 * half))
            elif act == "read":
                o.load(r.choice((2, 6, 3) if xlen == 64 else (2,)), r.choice((MTIME, MTIMECMP, MTIME + 4, MTIMECMP + 4, 0x2000000)) & ~0)
            elif act == "nop":
                if ints:
                    s.priv(r.choice((0, 1, 3)))
                o.nop()
            elif act == "poke":
                s.clint(0xbff8, v).clint(0x4000, (v + r.choice((0, 1, -1))) & gen.M64)
                o.nop()
            else:
                left = 5000 - cnt % 5000
                m = {"spin": r.randrange(2, 60), "bound": r.choice((left - 1, left, left + 1)),
                     "ticks": r.choice((5000, 10000, 15001))}[act]
                if m < 2:
                    m = 2
                s.csr(0x304, 0)
                o.spin(m)
                o.nop()
                m += 1
                if ints:
                    s.csr(0x304, r.choice((0x80, 0x20, 0xa0, 0xfff)))
            cnt += m
            keys.add((xlen, act, v, ints))
        # the time CSR, as read by the guest
        s.csr(0x304, 0).mem(CODE + 0x30, asm.w32(asm.csrrs(5, 0xc01, 0)))
        s.csr(0x306, 2).csr(0x106, 2).priv(r.choice((0, 1, 3)))
        o.nop()
        scens.append(s)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, action, value); boundaries hit exactly and off by one")


# ---------------------------------------------------------------- C18

@check("C18")
def c18(c):
    r = rng(c)
    c.build()
    p = Packer(c, r, per=60, wins=((0x1000, 0x20), (0, 0x10), (0x7ffffff0, 0x10), (0x3000, 0x20)))
    bounds = [0, 0x800, 0x1000, 0x2000, 0x10000, 0x2000000, 0x2004000, 0x200bff8, 0x2010000, 0x20c0000, 0xc000000, 0xc001000, 0xc002000,
              0xc002100, 0xc003000, 0xc200000, 0xc201000, 0xc202000, 0xd000000, 0x10000000, 0x10000100, 0x10001000,
              0x20000000, 0x80000000, 0x100000000, 0x80003000]
    for xlen in XL:
        addrs = set()
        for b in bounds:
            addrs |= {b + d for d in (-8, -4, -2, -1, 0, 1, 2, 4, 8, 12)}
        # every bit of the address is decoded
        for k in range(32 if xlen == 32 else 64):
            for b in (0x80003000, 0x2004000, 0xc000004, 0x10000001, 0x1000):
                addrs.add(b ^ 1 << k)
        for b in (0x2000000, 0xc000000, 0x10000000):
            addrs |= {b + r.randrange(0x10000) & ~3 for _ in range(20 if not c.thorough() else 1500)}
        addrs |= {r.getrandbits(31) & ~7 for _ in range(20 if not c.thorough() else 1500)}
        addrs = sorted(a & mask(xlen) for a in addrs)
        for a in addrs:
            ops = [("l", f) for f in ((0, 1, 2, 4, 5) if xlen == 32 else range(7))]
            ops += [("s", f) for f in range(3 if xlen == 32 else 4)]
            ops += [("x", 0), ("amo", 4), ("lr", 4), ("sc", 4)] + ([("amo", 8), ("lr", 8)] if xlen == 64 else [])
            for (kind, f) in ops:
                size = f if kind in ("amo", "lr", "sc") else 1 << (f & 3)
                if a % size and r.random() < .8:
                    continue
                s = p.scen(xlen)
                if p.n[xlen] == 1:
                    s.mem(0xfffffff0, bytes(r.getrandbits(8) for _ in range(16)))
                at = gen.code_addr(r)
                v = word(r, xlen)
                if kind == "x":
                    # do not run a long way through memory: one step only
                    s.priv(r.choice((0, 1, 3))).pc(a & ~1).run(1)
                    p.note((xlen, a, "x"))
                    continue
                inst = {"l": lambda: asm.load(f, 5, 6, 0), "s": lambda: asm.store(f, 6, 7, 0),
                        "amo": lambda: asm.amo(r.choice((0, 1, 4)), f, 5, 6, 7), "lr": lambda: asm.amo(2, f, 5, 6, 0),
                        "sc": lambda: asm.amo(3, f, 5, 6, 7)}[kind]()
                s.x(6, a).x(7, v).priv(r.choice((3, 3, 1, 0))).mem(at, asm.w32(inst)).pc(at).run(1)
                p.note((xlen, a, kind, f))
    # the boot ROM: every word reads as recorded, and is executed from the reset vector
    scens = []
    for xlen in XL:
        s = Scen("boot%d" % xlen, xlen)
        s.csr(0x305, VEC).run(12)
        scens.append(s)
    c.validate(p.out + scens)
    return mc(c, distinct_nontrivial=len(p.distinct), rule="distinct (xlen, address, access kind, width)")


# ---------------------------------------------------------------- PLIC

def quiet(s):
    """no interrupt is taken"""
    s.csr(0x304, 0)


def take(r, s, o, ctx):
    """the hart takes the external interrupt of a context, if its signal is up"""
    if ctx == 0:
        s.csr(0x303, r.choice((0, 0x200))).csr(0x304, 0x800).csr(0x300, gen.MIE_).priv(3)
    else:
        s.csr(0x303, 0x200).csr(0x304, 0x200).csr(0x300, gen.SIE_).priv(1)
    o.nop()
    s.csr(0x304, 0).priv(3)


def plic_walks(c, r, edges, keys, check_mip):
    """behaviours of the model of the interrupt controller, on the real one: which two sources, which priorities, varies"""
    g, start = walk.graph(c, "MCPlic", "MCPlicGraph.cfg")
    ws, n, total = walk.walks(r, g, start, edges, 60)
    c.extra["model_edges_replayed"] = c.extra.get("model_edges_replayed", 0) + n
    c.extra["model_edges"] = c.extra.get("model_edges", 0) + total
    out = []
    for k, w in enumerate(ws):
        xlen = XL[k % 2]
        s = Scen("walk%d" % k, xlen)
        s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
        s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x80, asm.w32(asm.SRET))
        o = Ops(r, s)
        src = [0] + sorted(r.sample(range(1, 32), 2))
        hi = r.randrange(1, 16)
        lo = r.randrange(0, hi)
        for (what, i, v) in w:
            if what in ("up", "down"):
                s.level(src[i], what == "up")
                o.nop()
            elif what == "pri":
                o.store(2, PLIC + 4 * src[i], hi * v)
            elif what == "thr":
                # a threshold of 1 hides priority 1
                o.store(2, PLIC + 0x200000 + 0x1000 * (i - 1), r.randrange(hi, 16) if v else lo)
            elif what == "en":
                o.store(2, PLIC + 0x2000 + 0x80 * (i - 1), sum(1 << src[j] for j in v))
            elif what == "claim":
                o.load(2, PLIC + 0x200004 + 0x1000 * (i - 1))
            elif what == "complete":
                o.store(2, PLIC + 0x200004 + 0x1000 * (i - 1), src[v])
            elif what == "taken":
                take(r, s, o, i - 1)
            if check_mip and r.random() < .3:
                o.nop()
            keys.add((what, i, v, src[1] * 32 + src[2]))
        o.nop()
        out.append(s)
    return out


def plic_history(r, s, xlen, nops, keys, focus=None):
    """random history of the interrupt controller: lines, registers, claims"""
    o = Ops(r, s)
    few = r.random() < .6
    srcs = r.sample(range(1, 32), r.randrange(2, 5)) if few else list(range(1, 32))
    if r.random() < .5 and 1 not in srcs:
        srcs.append(1)
    claimed = []
    for _ in range(nops):
        act = r.choice(("up", "up", "down", "claim", "claim", "complete", "complete", "pri", "pri", "en", "en", "thr", "nop",
                        "wild", "wide"))
        ctx = r.randrange(2)
        i = r.choice(srcs)
        if act == "up":
            s.level(i, 1)
            if r.random() < .5:
                o.nop()
        elif act == "down":
            s.level(i, 0)
            if r.random() < .5:
                o.nop()
        elif act == "claim":
            o.load(r.choice((2, 6)) if xlen == 64 else 2, PLIC + 0x200004 + 0x1000 * ctx)
            claimed.append(i)
        elif act == "complete":
            v = r.choice((i, i, r.choice(claimed) if claimed else i, 0, 32, 33, 0x10000 + i, 0xffffffff, 31, 1024))
            o.store(2, PLIC + 0x200004 + 0x1000 * ctx, v)
        elif act == "pri":
            o.store(2, PLIC + 4 * r.choice((i, i, i, 0, 31, 32)), r.choice((0, 1, 1, 2, 3, 7, 15, 16, 17, 0xffff, 0x10001)))
        elif act == "en":
            v = r.choice((gen.M32, sum(1 << q for q in srcs), 1 << i, 0, r.getrandbits(32), gen.M32 & ~(1 << i)))
            o.store(2, PLIC + 0x2000 + 0x80 * ctx + (0 if r.random() < .85 else r.choice((4, 0x20, 0x40, 0x44, 0x7c))), v)
        elif act == "thr":
            o.store(2, PLIC + 0x200000 + 0x1000 * ctx, r.choice((0, 0, 1, 2, 7, 15, 16, 0x20)))
        elif act == "wild":
            a = PLIC + r.choice((0x1000, 0x1004, 0x2100, 0x2004, 0x2084, 0x200008, 0x202000, 0x3ffffc, 0x80, 0x84, 0x201008, 0x1ffffc))
            if r.random() < .5:
                o.load(2, a)
            else:
                o.store(2, a, r.getrandbits(32))
        elif act == "wide" and xlen == 64:
            a = PLIC + r.choice((0x200000, 0x201000, 0, 8, 0x2000, 0x2080, 0x78, 0x1000, 0x202000))
            if r.random() < .5:
                o.load(3, a)
            else:
                o.store(3, a, r.choice((gen.M64, r.getrandbits(64), (i << 32) | 1, i << 32)))
        else:
            if r.random() < .3:
                o.load(r.choice((0, 1, 4, 5)), PLIC + 4 * i)
            else:
                o.load(2, PLIC + r.choice((4 * i, 0x2000, 0x2080, 0x200000, 0x201000)))
        keys.add((act, ctx, i if few else 0))


@check("C19")
def c19(c):
    r = rng(c)
    c.build()
    scens, keys = [], set()
    for k in range(240 if not c.thorough() else 6000):
        xlen = XL[k % 2]
        s = Scen("plic%d" % k, xlen)
        s.csr(0x305, VEC)
        # a set-up under which claims have something to return
        o = Ops(r, s)
        n = r.choice((2, 3, 5, 31))
        srcs = r.sample(range(1, 32), n)
        for i in srcs:
            if r.random() < .9:
                o.store(2, PLIC + 4 * i, r.choice((1, 1, 2, 3, 7, 15, 8)))
        for ctx in (0, 1):
            if r.random() < .9:
                o.store(2, PLIC + 0x2000 + 0x80 * ctx, r.choice((gen.M32, sum(1 << i for i in srcs), r.getrandbits(32))))
        for i in srcs:
            if r.random() < .7:
                s.level(i, 1)
        # drain
        ctx = r.randrange(2)
        for _ in range(min(n + 1, 8)):
            o.load(2, PLIC + 0x200004 + 0x1000 * ctx)
        for i in srcs[:8]:
            if r.random() < .7:
                if r.random() < .3:
                    s.level(i, r.randrange(2))
                o.store(2, PLIC + 0x200004 + 0x1000 * r.choice((ctx, ctx, 1 - ctx)), i)
        for _ in range(min(n + 1, 6)):
            o.load(2, PLIC + 0x200004 + 0x1000 * r.randrange(2))
        plic_history(r, s, xlen, 40, keys)
        scens.append(s)
    # every source: raise, claim, complete, claim again, in both contexts
    for xlen in XL:
        for i in range(1, 32):
            s = Scen("src%d" % i, xlen)
            s.csr(0x305, VEC)
            o = Ops(r, s)
            other = r.choice([j for j in range(1, 32) if j != i])
            for j, pr in ((i, r.randrange(1, 16)), (other, r.randrange(0, 16))):
                o.store(2, PLIC + 4 * j, pr)
            for ctx in (0, 1):
                base = PLIC + 0x200004 + 0x1000 * ctx
                o.store(2, PLIC + 0x2000 + 0x80 * ctx, 1 << i | 1 << other | 1)
                s.level(i, 1)
                s.level(other, 1)
                o.load(2, base)
                o.load(2, base)
                o.load(2, base)
                o.store(2, base, i)
                o.load(2, base)
                s.level(i, 0)
                o.load(2, base)
                o.store(2, base, i)
                s.level(i, 1)
                o.load(2, base)
                o.store(2, base, other)
                o.store(2, base, i)
                o.load(2, base)
                keys.add((xlen, i, ctx))
            scens.append(s)
    c.model("MCPlic", "MCPlic.cfg")
    if c.thorough():
        c.model("MCPlic", "MCPlic3.cfg")
        c.model("MCPlic", "MCPlic32.cfg")
    scens += plic_walks(c, r, 5000 if not c.thorough() else 10**9, keys, False)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (action, context, value, sources)")


@check("C20")
def c20(c):
    r = rng(c)
    c.build()
    scens, keys = [], set()
    for k in range(260 if not c.thorough() else 6000):
        xlen = XL[k % 2]
        s = Scen("ext%d" % k, xlen)
        s.csr(0x305, VEC).csr(0x105, VEC + 0x80)
        s.mem(VEC, asm.w32(asm.MRET)).mem(VEC + 0x80, asm.w32(asm.SRET))
        o = Ops(r, s)
        one = r.randrange(1, 32)
        # one context first: the other must stay silent
        ctx = r.randrange(2)
        for i in (one, r.randrange(1, 32)):
            o.store(2, PLIC + 4 * i, r.choice((0, 1, 2, 15)))
        if r.random() < .5:
            # software-written pending bits survive while the controller is untouched
            s.csr(0x344, r.choice((0xa00, 0x200, 0x800)))
        o.store(2, PLIC + 0x2000 + 0x80 * ctx, gen.M32)
        s.level(one, 1)
        o.nop()
        for t in (1, 15, 0, 2):
            o.store(2, PLIC + 0x200000 + 0x1000 * ctx, t)
            o.nop()
            keys.add(("thr", ctx, t))
        s.level(one, 0)
        o.nop()
        s.level(one, 1)
        o.load(2, PLIC + 0x200004 + 0x1000 * ctx)
        o.nop()
        o.store(2, PLIC + 0x200004 + 0x1000 * ctx, one)
        o.nop()
        o.store(2, PLIC + 0x2000 + 0x80 * (1 - ctx), gen.M32)
        o.nop()
        plic_history(r, s, xlen, 14, keys)
        # taking the interrupts
        s.csr(0x303, r.choice((0, 0x200, 0x800, 0xa00))).csr(0x304, r.choice((0xa00, 0x800, 0x200)))
        for _ in range(10):
            s.csr(0x300, r.choice((0, gen.MIE_, gen.SIE_, gen.MIE_ | gen.SIE_))).priv(r.choice((0, 1, 3)))
            act = r.randrange(6)
            if act == 0:
                s.level(r.choice((one, r.randrange(1, 32))), r.randrange(2))
            if act == 1:
                o.store(2, PLIC + 0x200000 + 0x1000 * r.randrange(2), r.choice((0, 0, 3)))
            elif act == 2:
                o.load(2, PLIC + 0x200004 + 0x1000 * r.randrange(2))
            elif act == 3:
                # the guest writes the pending bits itself
                s.x(7, 0xa00).mem(CODE + 0x34, asm.w32(r.choice((asm.csrrs(5, 0x344, 7), asm.csrrc(5, 0x344, 7)))))
                s.priv(3).pc(CODE + 0x34).run(1)
            else:
                o.nop()
            o.nop()
            keys.add(("take", act))
        scens.append(s)
    c.model("MCPlic", "MCPlic.cfg")
    for k in ((64, 1), (32, 2)) if not c.thorough() else ((64, 1), (64, 2), (32, 1), (32, 2)):
        c.model("MCDriver", "MCDriver%d_%d.cfg" % k)
    scens += driver_runs(c, r, 176 if not c.thorough() else 1760, keys)
    scens += plic_walks(c, r, 5000 if not c.thorough() else 10**9, keys, True)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (action, context, value, sources)")


def driver_runs(c, r, n, keys):
    """the receiving program of spec/MCDriver.tla, the poll of the UART placed at every point of it"""
    import json, os
    from .core import VERIF
    with open(os.path.join(VERIF, "spec", "MCDriver.json")) as f:
        handlers = json.load(f)
    out = []
    for k in range(n):
        xlen, ctx = XL[k % 2], k // 2 % 2
        late = k // 4 % 44
        s = Scen("drv%d" % k, xlen)
        h = handlers["ms"[ctx]]
        s.win(0x3000, 0x20)
        s.mem(CODE, asm.w32(asm.SELF)).mem(CODE + 0x100, b"".join(v.to_bytes(2, "little") for v in h))
        s.csr(0x305, CODE + 0x100).csr(0x105, CODE + 0x100).csr(0x304, 0xa00).csr(0x303, 0x200 if ctx else 0)
        o = Ops.__new__(Ops)
        o.r, o.s = r, s
        stub = CODE + 0x200
        s.mem(stub, asm.w32(asm.store(2, 6, 7, 0), asm.store(0, 6, 7, 0)))
        s.csr(0x300, 0).priv(3)
        for a, v in ((PLIC + 4, 1), (PLIC + 0x2000 + 0x80 * ctx, 2)):
            s.pc(stub).x(6, a).x(7, v).run(1)
        s.pc(stub + 4).x(6, UART + 1).x(7, 1).run(1)
        cnt = 3
        s.x(10, PLIC + 0x200004 + 0x1000 * ctx).x(11, UART).x(12, 0x80003000)
        # interrupts are held back until shortly before the next boundary, more input is waiting by then
        on = gen.SIE_ if ctx else gen.MIE_
        lv = 1 if ctx else 3
        s.pc(CODE).priv(lv)
        if k // 176 % 3:
            s.inp(bytes(r.randrange(1, 255) for _ in range(r.randrange(1, 4))))
            s.csr(0x304, 0).spin(5000 - cnt)
            cnt = 0
        chunks = r.randrange(1, 3)
        for _ in range(chunks):
            s.inp(bytes(r.randrange(1, 255) for _ in range(r.randrange(1, 3))))
        s.csr(0x304, 0).spin(5000 - late - cnt)
        s.csr(0x304, 0xa00).csr(0x300, on)
        s.run(late + 46)
        # and what is left, until all is there
        cnt = 46
        for _ in range(chunks + 1):
            s.pc(CODE).csr(0x304, 0).spin(5000 - cnt).csr(0x304, 0xa00)
            s.run(40)
            cnt = 40
        keys.add(("driver", xlen, ctx, late, k // 176 % 3))
        out.append(s)
    return out


# ---------------------------------------------------------------- UART

def uart_history(r, s, xlen, nops, keys, bias=()):
    o = Ops(r, s)
    regs = list(range(8)) + [8, 15, 100, 255]
    acts = ("tx", "tx", "rx", "rx", "rx", "lsr", "iir", "ier", "lcr", "mcr", "fcr", "read", "write", "in", "in", "tick", "tick",
            "tick", "width", "nop", "burst") + tuple(bias)
    for _ in range(nops):
        act = r.choice(acts)
        if act == "tx":
            o.store(0, UART, r.choice((0x41, 0, 0xff, 0x80, r.getrandbits(8), r.getrandbits(32))))
        elif act == "rx":
            o.load(r.choice((0, 4)), UART)
        elif act == "lsr":
            if r.random() < .85:
                o.load(4, UART + 5)
            else:
                o.store(0, UART + 5, r.choice((0, 0x60, 0x61, 0x70, 1, 0x11, r.getrandbits(8))))
        elif act == "iir":
            o.load(4, UART + 2)
        elif act == "ier":
            o.store(0, UART + 1, r.choice((0, 1, 2, 3, 0xff, r.getrandbits(8))))
        elif act == "lcr":
            o.store(0, UART + 3, r.choice((0, 3, 0x80, 0x83, r.getrandbits(8))))
        elif act == "mcr":
            o.store(0, UART + 4, r.choice((0, 8, 0x10, 0x18, r.getrandbits(8))))
        elif act == "fcr":
            o.store(0, UART + 2, r.choice((0, 1, 2, 4, 6, 7, 0xc7, r.getrandbits(8))))
        elif act == "read":
            o.load(4, UART + r.choice(regs))
        elif act == "write":
            o.store(0, UART + r.choice(regs), r.getrandbits(8))
        elif act == "in":
            s.inp(bytes(r.getrandbits(8) for _ in range(r.choice((1, 1, 2, 3, 5, 30, 64, 70)))))
        elif act == "tick":
            o.spin(r.choice((5000, 5000, 10000, 85000, 2500)))
        elif act == "width":
            f = r.choice((1, 2, 3) if xlen == 64 else (1, 2))
            if r.random() < .5:
                o.load(f, UART)
            else:
                o.store(f, UART, r.getrandbits(16))
        elif act == "burst":
            # fill the loopback queue
            o.store(0, UART + 4, 0x18)
            for j in range(r.choice((3, 66))):
                o.store(0, UART, j)
            if r.random() < .6:
                o.store(0, UART + 4, 8)
            for j in range(r.choice((0, 2, 70))):
                o.load(4, UART)
        else:
            o.nop()
        keys.add((act,))


def uart_walks(c, r, edges, keys, plic):
    """behaviours of the model of the UART, on the real one"""
    g, start = walk.graph(c, "MCUart", "MCUartGraph.cfg")
    ws, n, total = walk.walks(r, g, start, edges, 60)
    c.extra["model_edges_replayed"] = n
    c.extra["model_edges"] = total
    out = []
    for k, w in enumerate(ws):
        xlen = XL[k % 2]
        s = Scen("walk%d" % k, xlen)
        s.csr(0x305, VEC)
        o = Ops(r, s)
        if plic:
            o.store(2, PLIC + 4, 1)
            for ctx in (0, 1):
                o.store(2, PLIC + 0x2000 + 0x80 * ctx, 2)
        for (what, i, v) in w:
            if what == "read":
                o.load(r.choice((0, 4)), UART + i)
            elif what == "write":
                if i == 0:
                    v = r.getrandbits(8)
                elif i == 1:
                    v |= r.choice((0, 0x10, 4, 8))
                elif i == 2:
                    v |= r.choice((0, 0xc0, 8))
                elif i == 3:
                    v |= r.choice((0, 3, 0x1b))
                o.store(0, UART + i, v)
            elif what == "in":
                s.inp(bytes(r.getrandbits(8) for _ in range(i)))
                o.spin(5000 * 17)
            else:
                o.spin(5000)
            if plic and r.random() < .15:
                o.load(2, PLIC + 0x200004 + 0x1000 * r.randrange(2))
            elif plic and r.random() < .15:
                o.store(2, PLIC + 0x200004 + 0x1000 * r.randrange(2), 1)
            keys.add((what, i, v, plic))
        o.nop()
        out.append(s)
    return out


@check("C21")
def c21(c):
    r = rng(c)
    c.build(binary=True)
    scens, keys = [], set()
    for k in range(110 if not c.thorough() else 2500):
        xlen = XL[k % 2]
        s = Scen("uart%d" % k, xlen)
        s.csr(0x305, VEC)
        uart_history(r, s, xlen, 50, keys)
        scens.append(s)
    for xlen in XL:
        # every byte value out, in, and looped back
        s = Scen("all%d" % xlen, xlen)
        s.csr(0x305, VEC)
        o = Ops(r, s)
        for v in range(256):
            o.store(0, UART, v)
            keys.add(("out", v))
        for lo in range(0, 256, 32):
            s.inp(bytes(range(lo, lo + 32)))
            o.spin(5000 * 17)
            for _ in range(34):
                o.load(4 if lo & 32 else 0, UART)
                o.load(4, UART + 5)
            keys.add(("in", lo))
        o.store(0, UART + 4, 0x18)
        for lo in range(0, 256, 64):
            for v in range(lo, lo + 66):
                o.store(0, UART, v)
            for _ in range(65):
                o.load(4, UART)
        scens.append(s)
        # each register, with and without the divisor latch
        s = Scen("regs%d" % xlen, xlen)
        s.csr(0x305, VEC)
        o = Ops(r, s)
        for dl in (0, 0x80):
            for reg in list(range(256)):
                o.store(0, UART + 3, dl)
                o.store(0, UART + reg, r.getrandbits(8) & (0x6f if reg in (3, 4) else 0xff))
                o.load(4, UART + reg)
                keys.add(("reg", reg, dl))
        scens.append(s)
        # the queue limit with console input, chunk by chunk, and backoff between polls
        for sizes in ((64, 1), (63, 1, 1), (65, 2), (200, 5), (1,) * 20, (30, 30, 30)):
            s = Scen("chunks%d-%s" % (xlen, "-".join(map(str, sizes))), xlen)
            s.csr(0x305, VEC)
            o = Ops(r, s)
            for m in sizes:
                s.inp(bytes(r.getrandbits(8) for _ in range(m)))
            for _ in range(12):
                o.spin(r.choice((5000, 10000, 5000 * 16, 5000 * 17)))
                o.load(4, UART + 5)
                for _ in range(r.choice((0, 1, 3, 40))):
                    o.load(4, UART)
                if r.random() < .3:
                    s.inp(bytes([r.getrandbits(8)]))
            scens.append(s)
            keys.add(("chunks", sizes))
    from . import checks_host
    c.model("MCUart", "MCUart2.cfg" if c.thorough() else "MCUart.cfg")
    scens += uart_walks(c, r, 2500 if not c.thorough() else 10**9, keys, False)
    c.validate(scens + checks_host.console_runs(c, r, keys))
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (action, value)")


@check("C22")
def c22(c):
    r = rng(c)
    c.build()
    scens, keys = [], set()
    for k in range(200 if not c.thorough() else 4000):
        xlen = XL[k % 2]
        s = Scen("ui%d" % k, xlen)
        s.csr(0x305, VEC).csr(0x105, VEC)
        s.mem(VEC, asm.w32(asm.MRET))
        o = Ops(r, s)
        # the line is visible through the interrupt controller
        o.store(2, PLIC + 4, 1)
        for ctx in (0, 1):
            o.store(2, PLIC + 0x2000 + 0x80 * ctx, 2)
        uart_history(r, s, xlen, 8, keys)
        for _ in range(30):
            act = r.choice(("rx", "rx", "ier", "ier", "in", "tick", "loop", "fcr", "tx", "iir", "claim", "complete", "lcr", "nop"))
            if act == "rx":
                o.load(4, UART)
            elif act == "ier":
                o.store(0, UART + 1, r.choice((0, 1, 1, 2, 3)))
            elif act == "in":
                s.inp(bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 3) if r.random() < .95 else (63, 64, 65, 130, 300)))))
                o.spin(5000 * r.choice((1, 17)))
            elif act == "tick":
                o.spin(5000)
            elif act == "loop":
                o.store(0, UART + 4, 0x18)
                o.store(0, UART, r.getrandbits(8))
                if r.random() < .7:
                    o.store(0, UART + 4, 8)
            elif act == "fcr":
                o.store(0, UART + 2, r.choice((2, 4, 6, 7, 1)))
            elif act == "tx":
                o.store(0, UART, 0x41)
            elif act == "iir":
                o.load(4, UART + 2)
            elif act == "claim":
                o.load(2, PLIC + 0x200004 + 0x1000 * r.randrange(2))
            elif act == "complete":
                o.store(2, PLIC + 0x200004 + 0x1000 * r.randrange(2), 1)
            elif act == "lcr":
                o.store(0, UART + 3, r.choice((0, 0x80, 3)))
            else:
                o.nop()
            o.nop()
            keys.add((act, "i"))
        scens.append(s)
    c.model("MCUart", "MCUart2.cfg" if c.thorough() else "MCUart.cfg")
    scens += uart_walks(c, r, 6000 if not c.thorough() else 10**9, keys, True)
    c.validate(scens)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct UART and PLIC actions")
