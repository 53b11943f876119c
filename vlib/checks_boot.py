"""Program loading and boot: C25, C26."""
import json, struct
from . import asm, gen
from .checks import check, mc, rng, XL
from .core import Config, Run, Scen
from .checks_host import Host, CLOSE, MAINVARS
from .prog import Prog, A0, A1, A2, T0, T1, T2, S0, S1


class Tree(Scen):
    """looks at the device tree in the boot ROM of a configuration"""

    def __init__(self, name, cfg):
        Scen.__init__(self, name, cfg.xlen, cfg)

    def text(self):
        return "# device tree\nS %s\nE\n" % self.full()

    def execute(self, c, k):
        return json.dumps({"id": self.full(), "rv": self.xlen, "cf": k, "win": [], "ev": [{"k": "T"}]}, separators=(",", ":")) + "\n"


# ---------------------------------------------------------------- ELF files of every shape

def shaped_elf(r, xlen, segments, symbols, decoys=False):
    """segments: [(type, paddr, data, memsz)]; symbols: [(name, value)] or None.  The parts of the file come in any order."""
    is64 = xlen == 64
    eh, phs, shs, sys = (64, 56, 64, 24) if is64 else (52, 32, 40, 16)
    phent = phs + r.choice((0, 0, 0, 8, 32))
    shent = shs + r.choice((0, 0, 0, 8, 16))
    parts = {("seg", i): d for i, (_, _, d, _) in enumerate(segments)}
    parts["ph"] = bytes(phent * len(segments))
    secs = []          # [name, type, part, link name]
    if symbols is not None:
        def table(pairs):
            names, recs = bytearray(b"\0"), bytearray(sys)
            for n, v in pairs:
                if r.random() < .3:
                    names.extend(r.choice((b"x\0", b"host\0", b"\0")))
                o = len(names)
                # a name may be the tail of another one
                if n.encode() + b"\0" in bytes(names) and r.random() < .5:
                    o = bytes(names).index(n.encode() + b"\0")
                else:
                    names.extend(n.encode() + b"\0")
                info = r.choice((0x10, 0x00, 0x11, 0x12, 0x20))
                recs += struct.pack("<IBBHQQ", o, info, r.randrange(4), r.choice((1, 0xfff1, 2)), v, 8) if is64 else \
                    struct.pack("<IIIBBH", o, v, 8, info, r.randrange(4), r.choice((1, 0xfff1, 2)))
            return bytes(recs), bytes(names)
        recs, names = table(symbols)
        parts["sym"], parts["str"] = recs, names
        secs += [[".symtab", 2, "sym", ".strtab"], [".strtab", 3, "str", None]]
        if decoys:
            drecs, dnames = table([("tohost", 0x1230), ("fromhost", 0x4560), ("z", 3)])
            parts["dsym"], parts["dstr"] = drecs, dnames
            secs += [[".dynsym", 11, "dsym", ".dynstr"], [".dynstr", 3, "dstr", None]]
        secs += [[r.choice((".text", ".data", ".symtab_shndx", ".strtab.x", ".stabstr", ".init")), 1, ("seg", 0), None]
                 for _ in range(r.randrange(3))]
        secs.append([".shstrtab", 3, "shstr", None])
        r.shuffle(secs)
        shstr = bytearray(b"\0")
        for s in secs:
            s.append(len(shstr))
            shstr += s[0].encode() + b"\0"
        parts["shstr"] = bytes(shstr)
        parts["sh"] = bytes(shent * (len(secs) + 1))
    order = list(parts)
    r.shuffle(order)
    at, off = {}, eh
    for p in order:
        off += r.choice((0, 0, 1, 3, 16, 100))
        if p in ("ph", "sh"):
            off = (off + 7) & ~7
        at[p] = off
        off += len(parts[p])
    out = bytearray(r.randbytes(off) if r.random() < .5 else bytes(off))
    for p in order:
        out[at[p]:at[p] + len(parts[p])] = parts[p]
    for i, (typ, paddr, data, memsz) in enumerate(segments):
        h = at["ph"] + phent * i
        vaddr = r.choice((paddr, paddr, r.getrandbits(31) << (1 if xlen == 64 else 0)))
        memsz = len(data) if memsz is None else memsz
        fl = r.randrange(8)
        al = r.choice((1, 4, 0x1000))
        out[h:h + phs] = struct.pack("<IIQQQQQQ", typ, fl, at["seg", i], vaddr, paddr, len(data), memsz, al) if is64 else \
            struct.pack("<IIIIIIII", typ, at["seg", i], vaddr, paddr, len(data), memsz, fl, al)
    shoff = 0
    if symbols is not None:
        shoff = at["sh"]
        num = {s[0]: i + 1 for i, s in enumerate(secs)}
        for i, (name, typ, part, link, nm) in enumerate(secs):
            h = shoff + shent * (i + 1)
            ln = num[link] if link else 0
            ent = sys if typ in (2, 11) else 0
            fl = 0
            out[h:h + shs] = struct.pack("<IIQQQQIIQQ", nm, typ, fl, 0, at[part], len(parts[part]), ln, 1, 8, ent) if is64 else \
                struct.pack("<IIIIIIIIII", nm, typ, fl, 0, at[part], len(parts[part]), ln, 1, 4, ent)
    entry = r.choice((segments[0][1], segments[-1][1] + 4, r.getrandbits(31))) & (asm.M64 if is64 else asm.M32)
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1, 1, r.choice((0, 0, 3))]) + bytes(8)
    nsh = len(secs) + 1 if symbols is not None else 0
    shstrndx = num[".shstrtab"] if symbols is not None else 0
    flags = r.choice((0, 1, 5))
    out[0:eh] = ident + (struct.pack("<HHIQQQIHHHHHH", 2, 243, 1, entry, at["ph"], shoff, flags, eh, phent, len(segments), shent, nsh, shstrndx)
                         if is64 else
                         struct.pack("<HHIIIIIHHHHHH", 2, 243, 1, entry, at["ph"], shoff, flags, eh, phent, len(segments), shent, nsh, shstrndx))
    return bytes(out)


BASES = (0x80000000, 0x80000000, 0x80000000, 0x20000000, 0x40000000, 0x90000000, 0x80001000, 0x7ffff000, 0xc0000000)
WIDE = (0xfffff000, 0x100000000, 0x123456000, 0x80_0000_0000, 0xf_ffff_f000, 0x7fff_ffff_f000)


def pick_base(r, xlen, k):
    if k < 2:
        return 0x80000000
    return r.choice(BASES + (WIDE if xlen == 64 else ()))


def load_config(r, k):
    """(configuration, tohost, fromhost)"""
    xlen = XL[k % 2]
    base = pick_base(r, xlen, k)
    lim = (1 << 32) - base if xlen == 32 else 1 << 31
    code = asm.w32(asm.store(3, 10, 11, 0), asm.SELF) if xlen == 64 else \
        asm.w32(asm.store(2, 10, 12, 4), asm.store(2, 10, 11, 0), asm.SELF)
    segs = [(1, base, code + r.randbytes(r.choice((0, 1, 7, 100))), None)]
    kern = 0x400000 if xlen == 32 else 0x200000
    for _ in range(r.choice((0, 0, 1, 2, 4, 8))):
        t = r.choice((1, 1, 1, 1, 0, 2, 4, 6, 0x70000003, 0x6474e551))
        o = r.choice((0x1000, 0x1001, 0x2ffd, 0x8000, 0x100000, kern - 40, kern + 20, kern + 3000, 0x7fffe000, 0x7ffff000, r.randrange(0x5000, 0x7fff0000)))
        if o > lim - 0x10000 and not (xlen == 64):
            o = 0x1000 + r.randrange(0x800)
        n = r.choice((0, 1, 2, 5, 64, 127, 128, 700))
        if o < 0x2000 and n > 64:
            n = 64
        data = r.randbytes(n)
        if t != 1:
            # not loaded, whatever its addresses are
            segs.append((t, r.choice((0, base + o, base, r.getrandbits(31), 0x1000)), data, r.choice((None, 0))))
        else:
            segs.append((1, base + o, data, r.choice((None, n + r.choice((1, 100, 0x1000))))))
    # others may come first, but the first loadable one is where DRAM begins
    first, rest = segs[0], segs[1:]
    if r.random() < .4 and rest:
        k0 = [s for s in rest if s[0] != 1]
        rest = [s for s in rest if s[0] == 1]
        r.shuffle(rest)
        segs = k0 + [first] + rest
    to, fr = base + 0x2000, base + r.choice((0x2008, 0x2040, 0x3000))
    if r.random() < .3:
        to, fr = fr, to
    # no request is pending when the program starts
    if any(a < to + 8 and to < a + len(d) for t, a, d, _ in segs if t == 1):
        to, fr = base + 0x2000, base + 0x2008
    names = [("tohost", to), ("fromhost", fr)]
    if r.random() < .2:
        names = r.choice((names[:1], names[1:], []))
    both = len(names) == 2
    if r.random() < .75:
        names += [(n, r.getrandbits(31)) for n in r.sample(["main", "tohost_", "_fromhost", "to", "host", "end", "a", "fromhosttohost", "tohos", ""], r.randrange(8))]
    r.shuffle(names)
    symbols = None if not both and r.random() < .4 else names
    rnd = lambda: r.randbytes(r.choice((1, 2, 63, 127, 128, 129, 500, 4096, 5000)))
    kernel = rnd() if r.random() < .4 else None
    initrd = rnd() if r.random() < .4 else None
    e = shaped_elf(r, xlen, segs, symbols, r.random() < .4)
    pc = None if r.random() < .7 else r.choice((base, base + 4, 0x1000))
    return Config(xlen, e, kernel=kernel, initrd=initrd, pc=pc, host=True, base=base, name="load%d" % k), to, fr, \
        (xlen, base, len(segs), sum(s[0] == 1 for s in segs), symbols is None, both, kernel is not None, initrd is not None)


def sparse(r, n):
    """n bytes, most of them zero"""
    d = bytearray(n)
    for at in (0, 1, 0xff8, 0xfffa, 0x10000, 0x1fffc, 0x7fff9, 0xffffd, 0x100003, 0x110000, n // 2, n - 9, r.randrange(n)):
        if at + 8 <= n:
            d[at:at + 8] = r.randbytes(8)
    return bytes(d)


def large(r, k):
    """files of more than a megabyte"""
    xlen = XL[k % 2]
    base = pick_base(r, xlen, k % 4)
    n = r.randrange(0x110000, 0x180000)
    segs = [(1, base, asm.w32(asm.SELF), None), (1, base + r.choice((0x10000, 0x12344)), sparse(r, n), None)]
    e = shaped_elf(r, xlen, segs, [("tohost", base + 0x1000), ("fromhost", base + 0x1008)])
    m = lambda: sparse(r, r.randrange(0x10000, 0x180000))
    return Config(xlen, e, kernel=m() if k % 3 == 0 else None, initrd=m() if k % 3 == 1 else None, host=True, base=base, name="large%d" % k)


@check("C25")
def c25(c):
    r = rng(c)
    c.build()
    out, keys = [], set()
    for k in range(100 if not c.thorough() else 1200):
        cfg, to, fr, key = load_config(r, k)
        keys.add(key)
        # what is in memory, and the machine that was made
        out.append(Scen("image", cfg.xlen, cfg).run(1))
        # the mailbox is where the symbols say
        s = Host("mailbox", cfg, to, fr)
        s.win(0x2000, 0x60).win(0x3000, 0x40).win(0x6000, 0x40)
        s.mem(cfg.base, asm.w32(asm.store(3, 10, 11, 0), asm.SELF) if cfg.xlen == 64 else
              asm.w32(asm.store(2, 10, 12, 4), asm.store(2, 10, 11, 0), asm.SELF))
        s.mem(to, bytes(8))
        s.call(CLOSE, 99, block=cfg.base + 0x6000)
        out.append(s)
    c.validate(out)
    first = r.randrange(12)
    for k in range(2 if not c.thorough() else 24):
        cfg = large(r, first + k)
        c.validate([Scen("image", cfg.xlen, cfg).run(1)])
        keys.add((cfg.xlen, "large", cfg.base, cfg.kernel and len(cfg.kernel), cfg.initrd and len(cfg.initrd), len(cfg.elf)))
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, base, segments, loadable segments, symbol table, both symbols, kernel, initrd)")


# ---------------------------------------------------------------- C26

def entry_program(xlen, base):
    """looks at what it was given"""
    p = Prog(xlen, base + 0x10000)
    p.label("top")
    p(asm.csrrs(T1, 0xf14, 0), asm.csrrs(T1, 0x300, 0), asm.csrrs(T1, 0x301, 0), asm.csrrs(T1, 0x304, 0), asm.csrrs(T1, 0x180, 0))
    for k in range(10):
        p(asm.load(2, T1, A1, 4 * k))
    p(asm.load(0, T1, A1, 3), asm.load(4, T1, A1, 2), asm.load(1, T1, A1, 4), asm.load(5, T1, A1, 6), asm.load(3 if xlen == 64 else 2, T1, A1, 8))
    p.la(S0, "here")
    p(asm.store(2, S0, A0, 0), asm.store(2, S0, A1, 4), asm.SELF)
    p.label("here")
    return p.bytes() + bytes(8)


def tree_printer(xlen, base):
    """prints the device tree it was given, byte by byte, and its registers"""
    p = Prog(xlen, base + 0x10000)
    p.dump(A0).dump(A1)
    p.li(S1, 0x10000000)
    p.beq(A1, 0, "done")
    # totalsize is big endian
    p(asm.load(4, T0, A1, 7), asm.load(4, T1, A1, 6), asm.slli(T1, T1, 8), asm.add(T0, T0, T1))
    p(asm.add(T0, T0, A1), asm.addi(S0, A1, 0))
    p.label("loop")(asm.load(4, T2, S0, 0), asm.store(0, S1, T2, 0), asm.addi(S0, S0, 1)).bne(S0, T0, "loop")
    p.label("done").exit(5)
    return p.bytes()


@check("C26")
def c26(c):
    r = rng(c)
    c.build(binary=True)
    out, keys = [], set()
    rnd = lambda: r.randbytes(r.choice((1, 2, 100, 4095, 4096, 4097, 9000)))
    for k in range(80 if not c.thorough() else 400):
        xlen = XL[k % 2]
        base = pick_base(r, xlen, k)
        kernel = rnd() if r.random() < .3 else None
        initrd = rnd() if r.random() < .5 else None
        pc = r.choice((None, None, base, base + 4, 0x1000, 0x1008, base + 0x14))
        e = asm.elf(xlen, [(base, entry_program(xlen, base), None, 1)], base + r.choice((0, 0x10)),
                    None if r.random() < .5 else {"tohost": base + 0x10000, "fromhost": base + 0x10008})
        cfg = Config(xlen, e, kernel=kernel, initrd=initrd, pc=pc, base=base, name="boot%d" % k)
        out.append(Tree("tree", cfg))
        s = Scen("boot", xlen, cfg)
        s.win(0, 0x200).run(40)
        out.append(s)
        keys.add((xlen, base, kernel is not None, initrd and len(initrd), pc and pc - base))
    for k in range(6 if not c.thorough() else 24):
        xlen = XL[k % 2]
        base = 0x80000000 if k < 2 else pick_base(r, xlen, k)
        if base + 0x10008 >= 1 << 32:
            base = 0x40000000
        to = base + 0x10000
        initrd = rnd() if k % 3 == 1 else None
        pc = base if k % 3 == 2 else None
        e = asm.elf(xlen, [(base, tree_printer(xlen, base), None, 1)], base, {"tohost": to, "fromhost": to + 8})
        cfg = Config(xlen, e, kernel=rnd() if k // 2 % 2 else None, initrd=initrd, pc=pc, base=base, name="print%d" % k, args=[b"print%d.elf" % k])
        out.append(Tree("tree", cfg))
        out.append(Run("print%d" % k, cfg, steps=10000))
        keys.add((xlen, base, "printed", initrd and len(initrd), pc))
    c.validate(out)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, DRAM base, kernel, initrd length, initial pc)")
