"""Host interface, program loading, boot: C23 to C26, C30."""
import os, struct
from . import asm, gen
from .checks import check, mc, rng, XL
from .core import Config, Run, Scen

TOHOST, FROMHOST, BLOCK, BUF, PATH, LONG = 0x80002000, 0x80002008, 0x80003000, 0x80004000, 0x80004200, 0x80005000
AT_FDCWD = 0xffffffffffffff9c
OPEN, CLOSE, LSEEK, READ, WRITE, PREAD, PWRITE, FSTATAT, FSTAT, EXIT, MAINVARS = (
    56, 57, 62, 63, 64, 67, 68, 79, 80, 93, 2011)


def host_elf(xlen, tohost=TOHOST, fromhost=FROMHOST, base=0x80000000, symbols=None, extra=()):
    """x10: tohost, x11, x12: low and high word of the request (RV64: x11 only)"""
    if symbols is None:
        symbols = {"_start": base, "tohost": tohost, "fromhost": fromhost, "end": base + 0x9000}
    code = asm.w32(asm.store(3, 10, 11, 0), asm.SELF) if xlen == 64 else \
        asm.w32(asm.store(2, 10, 12, 4), asm.store(2, 10, 11, 0), asm.SELF)
    return asm.elf(xlen, [(base, code, None, 1)] + list(extra), base, symbols)


class Host(Scen):
    """a scenario of host calls"""

    def __init__(self, name, cfg, tohost=TOHOST, fromhost=FROMHOST):
        Scen.__init__(self, name, cfg.xlen, cfg)
        self.tohost, self.fromhost = tohost, fromhost

    def file(self, path, data=b"", mode=0o644):
        return self.add("hf f %s %x %s" % (path, mode, data.hex()))

    def dir(self, path, mode=0o755):
        return self.add("hf d %s %x" % (path, mode))

    def link(self, path, to):
        return self.add("hf l %s 0 %s" % (path, to.encode().hex()))

    def stdin(self, data, pipe=False):
        return self.add("hi %s %s" % ("p" if pipe else "f", data.hex()))

    def call(self, *args, block=BLOCK, data=(), request=None, fromhost=0):
        """one request; data: [(address, bytes)] to be put in memory before"""
        a = list(args) + [0] * (8 - len(args))
        self.mem(block, b"".join((v & asm.M64).to_bytes(8, "little") for v in a))
        for at, bs in data:
            self.mem(at & ~1, bytes(at & 1) + bs + bytes((len(bs) + at) & 1))
        self.mem(self.fromhost, fromhost.to_bytes(8, "little"))
        req = block if request is None else request
        self.x(10, self.tohost)
        if self.xlen == 64:
            self.x(11, req)
        else:
            self.x(11, req & asm.M32).x(12, req >> 32)
        return self.pc(self.cfg.base).run(1 if self.xlen == 64 else 2)


# ---------------------------------------------------------------- C24

def tree(r, s):
    """some files, directories and links"""
    s.file("a", r.randbytes(r.choice((0, 1, 20, 130)))).file("b", b"hello, world\n" * r.randrange(4))
    s.file("ro", b"read only", 0o444).file("wo", b"write only", 0o200).file("no", b"secret", 0)
    s.dir("d").file("d/x", r.randbytes(r.randrange(60))).dir("d/y").file("d/y/z", b"deep")
    s.dir("rod", 0o555).file("rod/f", b"inside").dir("nod", 0)
    s.link("la", "a").link("ld", "d").link("lx", "d/x").link("dang", "new").link("loop", "loop").link("lro", "ro")
    s.link("d/up", "x").link("la2", "la").link("lnod", "nod/q")


NAMES = ["a"] * 6 + ["b"] * 4 + ["ro", "wo", "no", "d", "d/x", "d/y", "d/y/z", "d/nope", "rod", "rod/f", "rod/new", "nod", "nod/q", "la", "ld",
                                 "lx", "ld/x", "ld/y/z", "ld/up", "dang", "loop", "loop/x", "lro", "la2", "lnod", "a/x", "new", "n2", "d/n3",
                                 "nope/x", "", ".", "d/..", "d/../a", "d/y/../x", "ld/../b", "a/../b", "nod/../a", "d/y/../../b", "rod/../n4",
                                 "/proc/self/cwd/a", "/proc/self/cwd/d/x", "/proc/self/cwd/.", "/proc/self/cwd/n5", "./a", "d/./x", "d//x", "././d/x", "/nonexistent-carron/q", "x", "y/z", "up"]


def random_flags(r):
    acc = r.choice((0, 0, 1, 2, 2))
    f = acc
    creat = r.random() < .45
    if creat:
        f |= 0x40 | (0x80 if r.random() < .3 else 0)
    elif r.random() < .2:
        f |= 0x10000
    if acc and r.random() < .3:
        f |= 0x200
    if r.random() < .25:
        f |= 0x400
    if r.random() < .2:
        f |= 0x20000
    if r.random() < .1:
        f |= 0x80000
    return f


NOT_STDOUT = False       # set: descriptor 1 is left alone (the log goes there)


def random_fd(r, n=7):
    k = r.random()
    if NOT_STDOUT:
        k *= .99
        fd = r.choice((0, 2, 3, 3, 3, 4, 4, 5, 6, n))
        if k < .86:
            return fd
    if k < .86:
        return r.choice((0, 1, 2, 3, 3, 3, 4, 4, 5, 6, n))
    return r.choice((8, 9, 12, 20, 63, 100, 1023, 1 << 31, 1 << 32, (1 << 32) + 3, gen.M64, AT_FDCWD, 0xffffff9c, 0xffffffff, 1 << 63))


def long_name(r):
    """a path longer than one component may be, or with such a component, or around the longest path of all"""
    n = r.choice((250, 253, 254, 255, 256, 257, 260, 300, 400, 511, 512, 700, 1020))
    k = r.random()
    if k < .45:
        end = r.choice(("a", "d/x", "n6", "nope/x", "b", "rod/f", "d/y"))
        return ("d/../" * (k < .1) + "./" * n)[:n - len(end)].rstrip(".") + "/" * (k < .1) + end
    if k < .6:
        return "q" * r.choice((254, 255, 256, 300)) + r.choice(("", "/a"))
    if k < .75:
        return r.choice(("d/", "rod/", "nod/", "a/", "nope/")) + "q" * r.choice((254, 255, 256, 300))
    if k < .85:
        return "d/" + "/" * n + "x"
    end = r.choice(("a", "d/x", "n7"))
    return "/" * 0 + ("./" * 3000)[:(4094 if k < .92 else 4096) - len(end) - (len(end) % 2 == 1) * 0].rstrip(".") + end


DIRS = {"d/..", "/proc/self/cwd/.", "d", "d/y", "rod", "nod", "ld", ".", "/", "./", "d/"}


def calls(r, s, n, pipe, note):
    far = r.choice(((1 << 31) - 3, 1 << 31, 0xffffffff, 1 << 32, (1 << 33) + 5, (1 << 32) + 100))
    ends = r.random() < .6          # seeks from the end are used: then no directory is opened
    for k in range(n):
        buf = BUF + (r.random() < .15)
        ln = r.choice((0, 1, 2, 3, 7, 8, 16, 31, 100, 200, r.randrange(300)))
        fill = [(BUF - 8, r.randbytes(0x178))]
        kind = r.choices(("open", "close", "lseek", "read", "write", "pread", "pwrite", "fstat", "fstatat", "huge"),
                         (9, 4, 5, 7, 7, 5, 5, 3, 5, 2))[0]
        name = r.choice(NAMES).encode()
        if r.random() < .03:
            name = bytes([r.choice((0xff, 0x80, 0xc3)), 0x61])
        long = kind in ("open", "fstatat") and r.random() < .06
        if long:
            name = long_name(r).encode()
        nul = name + b"\0"
        plen = len(nul)
        if r.random() < .1:
            plen = len(name)                 # not counting the NUL
            nul = name + bytes([r.choice((0, 0x41))])
        elif r.random() < .1:
            nul += b"tail\0"
            plen = len(nul)
        pat = (LONG if long else PATH) + r.randrange(2)
        if long:
            name = b"long %d %s" % (len(name), name[:2] + name[-2:])
        fd = random_fd(r)
        dirfd = r.choice([AT_FDCWD] * 8 + [0xffffff9c, 0x1234_ffffff9c]) if r.random() < .7 else random_fd(r)
        what = kind
        if kind == "open":
            fl = random_flags(r)
            if fl & 0x40 and (name in (b".", b"", b"/proc/self/cwd/.") or name.endswith(b"..")):
                fl &= ~0xc0
            if ends and name.decode("latin1") in DIRS and fl & 3 == 0:
                fl |= r.choice((1, 2))
            s.call(OPEN, dirfd, pat, plen, fl | r.choice((0, 0, 0, 1 << 32)), r.choice((0o644, 0o600, 0o666, 0o777, 0o444, 0o200, 0, 0o1644, 0o1777, 0o100644)),
                   data=[(pat, nul)])
            what = ("open", fl, name)
        elif kind == "close":
            s.call(CLOSE, fd)
            what = ("close", fd)
        elif kind == "lseek":
            wh = r.choice((0, 0, 1, 1, 2 if ends else 0, 2 if ends else 1, 1 << 32, 5, 100, 0xffffffff))
            if wh > 4 and wh != 1 << 32 and pipe and fd == 0:
                wh = 0
            off = r.choice((0, 0, 1, 5, 20, 60, 200)) if wh in (0, 1 << 32) else r.choice((0, 1, -1, 3, -5, 20, -20, -100, 50))
            if r.random() < .06:
                off = r.choice((-1, -(1 << 40), -(1 << 62)))
            s.call(LSEEK, fd, off, wh)
            what = ("lseek", wh, off < 0, fd)
        elif kind == "huge":
            fd = r.choice((3, 4, 0 if not pipe else 3))
            h = far + r.choice((0, 0, 1, -1, 20))
            s.call(LSEEK, fd, h, 0)
            s.call(READ, fd, buf, ln, data=fill)
            if r.random() < .6:
                s.call(*((WRITE, fd, buf, min(ln, 40)) if r.random() < .5 else (PWRITE, fd, buf, min(ln, 40), far + r.randrange(30))), data=fill)
                s.call(FSTAT, fd, BUF, data=fill)
                s.call(PREAD, fd, buf, 60, far + r.choice((-30, -5, 0, 3)), data=fill)
                if r.random() < .5:
                    s.call(LSEEK, fd, r.choice((0, -5, -30)), 2 if ends else 1)
                    s.call(READ, fd, buf, 50, data=fill)
                s.call(LSEEK, fd, h, 0)
            s.call(LSEEK, fd, r.choice((0, 3)) - h, 1)
            s.call(LSEEK, fd, 0, 0)
        elif kind == "read":
            s.call(READ, fd, buf, ln, data=fill)
            what = ("read", fd, min(ln, 8))
        elif kind == "write":
            s.call(WRITE, fd, buf, ln, data=fill)
            what = ("write", fd, min(ln, 8))
        elif kind in ("pread", "pwrite"):
            off = r.choice((0, 0, 1, 5, 20, 60, 200, 300)) if r.random() < .9 else r.choice((-1, -(1 << 40), -(1 << 63)))
            if kind == "pread" and r.random() < .1:
                off = far + r.choice((0, 3, -9))
            s.call(PREAD if kind == "pread" else PWRITE, fd, buf, ln, off, data=fill)
            what = (kind, fd, off < 0, min(ln, 8))
        elif kind == "fstat":
            s.call(FSTAT, fd, BUF + r.choice((0, 0, 1)), data=fill)
            what = ("fstat", fd)
        else:
            fl = r.choice((0, 0, 0x100, 0x100, 0x1000, 0x1100, 1, 0x10000, 1 << 32))
            s.call(FSTATAT, dirfd, pat, plen, BUF, fl, data=[(BUF - 8, r.randbytes(0x178)), (pat, nul)])
            what = ("fstatat", fl, name)
        note((s.xlen, what))


def host_windows(s):
    return s.win(0x2000, 0x80).win(0x3000, 0x100).win(0x4000, 0x400)


@check("C24")
def c24(c):
    r = rng(c)
    c.build()
    c.model("MCFd", "MCFd%d.cfg" % (5 if c.thorough() else 4))
    cfgs = {x: Config(x, host_elf(x), host=True, name="host%d" % x) for x in XL}
    out, keys = [], set()
    for k in range(300 if not c.thorough() else 2400):
        xlen = XL[k % 4 == 0]
        s = host_windows(Host("h%d" % k, cfgs[xlen]))
        tree(r, s)
        pipe = r.random() < .3
        s.stdin(r.randbytes(r.choice((0, 10, 100, 250))), pipe)
        calls(r, s, r.randrange(20, 60), pipe, keys.add)
        out.append(s)
    c.validate(out)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, call, descriptor or name, flags or length class)")


# ---------------------------------------------------------------- C23

def junk_symbols(r, n):
    pool = ["tohos", "tohostt", "to_host", "fromhos", "fromhost_", "host", "_tohost", "Tohost", "main", "_end", "fromhosttohost",
            "tohostfromhost", "a", "tohost.0", "fromhost1", ".Ltohost"]
    return {k: r.getrandbits(31) for k in r.sample(pool, n)}


def mailbox_configs(r, n):
    """(configuration, tohost, fromhost, intercepted)"""
    out = []
    for k in range(n):
        xlen = XL[k % 2]
        base = 0x80000000 if k < 4 or r.random() < .5 else r.choice((0x20000000, 0x40000000, 0x90000000, 0xc0000000, 0x80001000, 0xfffff000 if xlen == 64 else 0x7f000000))
        to, fr = r.choice(((0x2000, 0x2008), (0x2008, 0x2000), (0x2040, 0x2000), (0x2000, 0x2040), (0x100000, 0x2000), (0x2000, 0x3ff00000),
                           (0x1ff8, 0x2000), (0xfffff8, 0x1000000)))
        to, fr = base + to, base + fr
        have = ("tohost", "fromhost")
        if k % 5 == 4:
            have = r.choice((("tohost",), ("fromhost",), ()))
        syms = list(junk_symbols(r, r.randrange(6)).items()) + [(h, to if h == "tohost" else fr) for h in have]
        r.shuffle(syms)
        syms = dict(syms)
        if not have and r.random() < .5:
            syms = None
        extra = []
        init = 0
        if k % 7 == 6 and have:
            # a request is already there in the program's image
            init = r.choice((base + 0x3000, 1, (77 << 1) | 1, 1 << 32))
            extra = [(to, init.to_bytes(8, "little"), None, 1), (base + 0x3000, (57).to_bytes(8, "little") + (3).to_bytes(8, "little"), None, 1)]
        code = asm.w32(asm.SELF)
        cfg = Config(xlen, asm.elf(xlen, [(base, code, None, 1)] + extra, base, syms), host=True, base=base, name="mail%d" % k)
        out.append((cfg, to, fr, len(have) == 2, init))
    return out


def leave(r, s, to, value):
    """guest instructions that leave value (64 bits) at to, where zero is; sometimes with other things in between"""
    x = s.xlen
    at = s.cfg.base + 0x1000 + 4 * r.randrange(64)
    s.x(10, to).x(9, to & ~0xfff).priv(3).csr(0x300, 0)
    lo, hi = value & asm.M32, value >> 32
    noise = lambda: r.choice((asm.NOP, asm.addi(5, 5, 1), asm.load(2, 6, 10, 0), asm.ECALL, 0xffffffff))
    kind = r.choice(("d", "d", "ww", "ww", "amo", "sc", "c", "poke", "w"))
    if hi and kind == "w" and x == 64:
        kind = "d"
    if x == 32 and kind == "d":
        kind = "ww"
    s.x(11, value if x == 64 else lo).x(12, hi)
    s.mem(to, bytes(8))
    sw = lambda reg, off: asm.store(2, 10, reg, off)
    if kind == "d":
        prog = [asm.store(3, 10, 11, 0)]
    elif kind == "ww":
        prog = [sw(12, 4), sw(11, 0)]
    elif kind == "w":
        prog = [sw(11, 0)]
    elif kind == "amo":
        f = asm.AMO[r.choice(("add", "swap", "xor", "or_", "maxu"))]
        prog = [asm.amo(f, 8, 6, 10, 11)] if x == 64 else [sw(12, 4), asm.amo(f, 4, 6, 10, 11)]
    elif kind == "sc":
        prog = [asm.amo(2, 8, 6, 10, 0), asm.amo(3, 8, 6, 10, 11)] if x == 64 else \
            [sw(12, 4), asm.amo(2, 4, 6, 10, 0), asm.amo(3, 4, 6, 10, 11)]
    elif kind == "c":
        # c.sd x11, 0(x10) or c.sw
        prog = [(0xe10c, 16)] if x == 64 else [sw(12, 4), (0xc10c, 16)]
    else:
        # it appears there: the next instruction, whatever it is, is followed by the request
        s.mem(to, value.to_bytes(8, "little"))
        prog = [noise()]
    if r.random() < .3 and kind != "poke":
        prog.insert(0, r.choice((asm.NOP, asm.addi(5, 5, 1), asm.load(2, 6, 10, 0))))
    s.mem(at & ~1, asm.code(prog)).pc(at).run(len(prog))
    return kind


def mail_request(r, s, to, fr, block, keys, exits=False):
    """an argument block and the request"""
    base = s.cfg.base
    buf = base + 0x4000 + r.randrange(40)
    junk = [r.getrandbits(64) for _ in range(8)]
    call = r.choice(("write", "write", "close", "lseek", "read", "mainvars", "pread", "fstat"))
    ln = r.choice((0, 1, 5, 16, 40))
    if call == "write":
        a = [WRITE, r.choice((1, 1, 1, 0, 7)), buf, ln]
    elif call == "close":
        a = [CLOSE, r.choice((5, 9, 1 << 40))]
    elif call == "lseek":
        a = [LSEEK, 0, r.choice((0, 1, 5, -1)) & asm.M64, 0]
    elif call == "read":
        a = [READ, r.choice((0, 0, 1, 7)), r.choice((buf, buf, block, block + 3, fr)), ln]
        if a[2] == fr or block - base != 0x3000:
            a[3] = min(ln, 8 if a[2] == fr else 4)
    elif call == "pread":
        a = [PREAD, 0, buf, ln, r.choice((0, 3, 200))]
    elif call == "fstat":
        a = [FSTAT, r.choice((9, 100, asm.M64))]
    else:
        a = [MAINVARS, buf, r.choice((0, 10, 1000))]
    used = len(a)
    a += junk[used:]
    # the mailbox may lie in the part of the block that the call does not use
    for at in (to, fr):
        if block - 7 <= at < block + 64 and not block + 8 * used <= at <= block + 56:
            block = base + 0x3000
    if block <= to < block + 64:
        a[(to - block) // 8] = 0
    f = r.choice((0, 0, 0, 1, 1 << 16, 1 << 32, 1 << 63, r.getrandbits(64)))
    if block <= fr < block + 64:
        a[(fr - block) // 8] = f
    s.mem(block, b"".join(v.to_bytes(8, "little") for v in a))
    s.mem(base + 0x4000, r.randbytes(0x80))
    s.mem(fr, f.to_bytes(8, "little"))
    top = r.choice((0, 0, 0x8000, 0xffff, r.getrandbits(16)))
    kind = leave(r, s, to, block | top << 48)
    keys.add((s.xlen, "call", call, kind, bool(f), bool(top), block - base if block - base != 0x3000 else 0))


def exit_programs(r, n, keys):
    """programs that print and end, run by the emulator itself"""
    from .prog import Prog, A0, A1, A2, T0
    out = []
    for k in range(n):
        xlen = XL[k % 2]
        base = 0x80000000 if k < 2 else r.choice((0x80000000, 0x20000000, 0x90000000))
        to = base + 0x10000
        p = Prog(xlen, to)
        text = bytes(r.randrange(256) for _ in range(r.randrange(1, 12)))
        for n in range(r.randrange(1, 4)):
            for ch in r.sample(list(text), min(len(text), 3)):
                p(asm.addi(30, 0, ch)).putc(30)
            # write(1, text, len)
            p.li(A0, base + 0x11000).li(A1, base + 0x12000)
            for slot, v in enumerate((WRITE, 1, None, r.randrange(len(text) + 1))):
                if v is None:
                    p(asm.store(3 if xlen == 64 else 2, A0, A1, 8 * slot))
                else:
                    p.li(A2, v)(asm.store(3 if xlen == 64 else 2, A0, A2, 8 * slot))
            p.li(T0, to)(asm.store(2, T0, A0, 0))
        status = r.choice((0, 1, 2, 7, 77, 127, 128, 200, 255, 256, 1000, 0x7fffffff))
        if r.random() < .5:
            word = r.choice((1, 3, 255, 0x101, 0x7fffffff, 0x80000001, status << 1 | 1)) & asm.M32
            p.li(T0, to).li(A1, word)(asm.store(2, T0, A1, 0), asm.SELF)
            keys.add((xlen, "odd", word & 255))
        else:
            p.li(A0, base + 0x11000).li(A1, EXIT)(asm.store(2, A0, A1, 0)).li(A1, status)(asm.store(2, A0, A1, 8))
            p.li(T0, to)(asm.store(2, T0, A0, 0), asm.SELF)
            keys.add((xlen, "exit", status))
        e = asm.elf(xlen, [(base, p.bytes(), None, 1), (base + 0x12000, text, None, 1)], base, {"tohost": to, "fromhost": to + 8})
        cfg = Config(xlen, e, base=base, name="prog%d" % k, args=[b"prog%d.elf" % k])
        out.append(Run("exit%d" % k, cfg, steps=600))
    return out


@check("C23")
def c23(c):
    r = rng(c)
    c.build(binary=True)
    out, keys = [], set()
    n = 0
    for cfg, to, fr, heard, init in mailbox_configs(r, 14 if not c.thorough() else 60):
        base, xlen = cfg.base, cfg.xlen

        def scen():
            nonlocal n
            n += 1
            s = Host("m%d" % n, cfg, to, fr)
            s.stdin(r.randbytes(r.choice((0, 30, 100))), r.random() < .3)
            s.win(to - base & ~0x1f, 0x40).win(fr - base & ~0x1f, 0x40).win(0x3000, 0x200).win(0x4000, 0x100)
            return s
        if init:
            s = scen()
            s.mem(base + 0x1000, asm.w32(*[asm.NOP] * 4)).pc(base + 0x1000).run(3)
            out.append(s)
            keys.add((xlen, "initial", init))
        for _ in range(12 if not c.thorough() else 60):
            s = scen()
            if init:
                s.mem(to, bytes(8))
            for _ in range(r.randrange(5, 15)):
                blk = r.choice([base + 0x3000] * 4 + [base + 0x3000 + 8 * r.randrange(16), base + 0x3000 + 0x2000 * r.randrange(3) + 0x40,
                                                      to - 8 * r.randrange(1, 8), fr - 8 * r.randrange(8)])
                mail_request(r, s, to, fr, blk, keys)
            # nothing but the low word of tohost counts
            if r.random() < .5:
                s.x(10, r.choice((to - 4, to + 4, fr, fr + 4, to - 8))).x(11, base + 0x3000)
                s.mem(base + 0x1000, asm.w32(asm.store(2, 10, 11, 0), asm.NOP)).pc(base + 0x1000).run(2).mem(to, bytes(8))
                keys.add((xlen, "beside"))
            # it ends
            k = r.random()
            at = base + 0x1800
            word = r.choice((1, 3, 0x81, 255, 0xffff, 0x12345677, asm.M64, 1 << 63 | 1, 1 << 32 | 77, 0x100 << 48 | 5, 0x10000 | 9))
            s.x(10, to).x(11, word)
            if k < .2:
                s.mem(at, asm.w32(asm.store(r.randrange(4 if xlen == 64 else 3), 10, 11, 0))).pc(at).run(1)
                keys.add((xlen, "odd"))
            elif k < .45:
                keys.add((xlen, "odd", word, leave(r, s, to, word)))
            elif k < .65:
                code = r.choice((0, 1, 42, 255, 256, 0x1234, asm.M64, 1 << 31, 1 << 32))
                s.mem(base + 0x3000, EXIT.to_bytes(8, "little") + code.to_bytes(8, "little"))
                leave(r, s, to, base + 0x3000)
                keys.add((xlen, "exit", code))
            out.append(s)
        if not heard:
            keys.add((xlen, "deaf", cfg.elf.count(b"host")))
    c.validate(out + exit_programs(r, 6 if not c.thorough() else 40, keys))
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, call, way of writing tohost, fromhost zero or not, block placement)")


# ---------------------------------------------------------------- C30

def random_args(r, k):
    shapes = [b"", b"a", b"--flag", b"-x", b"with space", b"\xc3\xa9t\xc3\xa9", b"x" * 200, b"/tmp/some/program.elf", b"\xf0\x9f\xa6\x80", b"=",
              b"a=b", b"\n", b"\x01\x7f", b"'\"\\$"]
    n = (1, 2, 3, 4, 6, 9, 17, 40)[k % 8] if k < 16 else r.randrange(1, 30)
    args = [r.choice(shapes) if r.random() < .5 else bytes(r.randrange(32, 127) for _ in range(r.randrange(20))) for _ in range(n)]
    if k % 4 == 1:
        args[r.randrange(n)] = b"y" * r.choice((127, 128, 254, 255, 256, 257, 300))
    return args


def vector_size(args):
    return 8 * (len(args) + 3) + sum(len(a) + 1 for a in args)


def vector_programs(r, n, keys):
    """programs that fetch their arguments and print them"""
    from .prog import Prog, A0, A1, A2, T0, S0
    out = []
    for k in range(n):
        xlen = XL[k % 2]
        base = 0x80000000 if k < 2 else r.choice((0x80000000, 0x20000000, 0x90000000))
        to = base + 0x10000
        pk = k % 3 == 1
        more = [a for a in random_args(r, k + 3) if not a.startswith(b"-")][:k % 8 if k < 8 else 30]
        args = ([b"pk%d.elf" % k] if pk else []) + [b"prog%d.elf" % k] + more
        size = vector_size(args)
        limit = max(0, size + r.choice((0, 0, 0, 1, -1, 1000)))
        dst = base + 0x14000 + r.randrange(16)
        st = 3 if xlen == 64 else 2
        p = Prog(xlen, to)
        p.li(T0, to).li(A0, base + 0x11000)
        for words in ((MAINVARS, dst, limit), (WRITE, 1, dst, size)):
            for slot, v in enumerate(words):
                p.li(A1, v)
                if xlen == 64:
                    # zero extended
                    p(asm.slli(A1, A1, 32), 32 << 20 | A1 << 15 | 5 << 12 | A1 << 7 | 0x13)
                p(asm.store(st, A0, A1, 8 * slot))
                if xlen == 32:
                    p(asm.store(2, A0, 0, 8 * slot + 4))
            if words[0] == MAINVARS:
                p(asm.store(2, T0, A0, 0), asm.load(2, S0, A0, 0))
            else:
                p(asm.store(2, T0, A0, 0))
        p(asm.add(A1, S0, S0), asm.addi(A1, A1, 1), asm.store(2, T0, A1, 0), asm.SELF)
        e = asm.elf(xlen, [(base, p.bytes(), None, 1)], base, {"tohost": to, "fromhost": to + 8})
        cfg = Config(xlen, e, base=base, name="args%d" % k, args=args, pk=pk)
        out.append(Run("args%d" % k, cfg, steps=300))
        keys.add((xlen, "program", pk, len(args), limit - size))
    return out


@check("C30")
def c30(c):
    r = rng(c)
    c.build(binary=True)
    out, keys = [], set()
    for k in range(48 if not c.thorough() else 160):
        xlen = XL[k % 2]
        args = random_args(r, k)
        cfg = Config(xlen, host_elf(xlen), host=True, name="args%d" % k, args=args)
        size = vector_size(args)
        for q in range(3 if not c.thorough() else 12):
            s = host_windows(Host("v%d.%d" % (k, q), cfg))
            s.win(0x4400, size + 0x60)
            for lim in [size - 1, size, size + 1, 0, size // 2, asm.M64, 1 << 63, 1 << 32, asm.M32, 8 * (len(args) + 3),
                        size + (1 << 32), size + r.randrange(-20, 20)] if q == 0 else [r.choice((size - 1, size, size + 1, size + 2)) for _ in range(6)]:
                dst = 0x80004400 + r.randrange(24)
                s.call(MAINVARS, dst, max(0, lim), *[r.getrandbits(64) for _ in range(5)],
                       data=[(0x80004400 - 8, r.randbytes(size + 64))])
                keys.add((xlen, len(args), min(max(lim - size, -2), 2), dst % 8))
            out.append(s)
    c.validate(out + vector_programs(r, 16 if not c.thorough() else 64, keys))
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, number of arguments, limit against size, alignment)")



# ---------------------------------------------------------------- the console of the emulator itself (C21)

def echo_program(xlen, base, count, key, polling):
    """echoes count bytes, changed, and ends"""
    from .prog import Prog, S0, S1, S2, T0, T1, T2
    p = Prog(xlen, base + 0x10000)
    imm = lambda f3, rd, rs, v: asm.i_type(0x13, f3, rd, rs, v)
    p.li(S1, 0x10000000).li(S0, count)
    if polling:
        p.label("wait")
        p(asm.load(4, T0, S1, 5), imm(7, T0, T0, 1)).beq(T0, 0, "wait")
        p(asm.load(4, T0, S1, 0), imm(4, T0, T0, key), asm.store(0, S1, T0, 0), asm.addi(S0, S0, -1)).bne(S0, 0, "wait")
        p.exit(3)
        return p.bytes()
    p.li(S2, 0xc200000).li(T0, 0xc000000).li(T1, 1).li(T2, 2)
    p(asm.store(2, T0, T1, 4))
    p.li(T0, 0xc002000)(asm.store(2, T0, T2, 0), asm.store(2, S2, 0, 0), asm.store(0, S1, T1, 1))
    p.la(T0, "handler")(asm.csrrw(0, 0x305, T0))
    p.li(T0, 0x800)(asm.csrrw(0, 0x304, T0), asm.csr(6, 0, 8, 0x300))
    p(asm.SELF, asm.SELF)
    p.align(4)
    p.label("handler")(asm.load(2, T2, S2, 4))
    p.label("more")(asm.load(4, T0, S1, 5), imm(7, T0, T0, 1)).beq(T0, 0, "done")
    p(asm.load(4, T0, S1, 0), imm(4, T0, T0, key), asm.store(0, S1, T0, 0), asm.addi(S0, S0, -1)).bne(S0, 0, "more")
    p.exit(3)
    p.label("done")(asm.store(2, S2, T2, 4), asm.MRET)
    return p.bytes()


def console_runs(c, r, keys):
    """echo programs fed through the standard input of the emulator"""
    out = []
    for k in range(6 if not c.thorough() else 40):
        xlen = XL[k % 2]
        base = 0x80000000
        polling = k % 3 == 2
        if k < 2:
            data = bytes(r.sample(range(256), 256))
        else:
            data = b"".join(r.randbytes(r.choice((1, 5, 64, 65, 100) if k != 3 else (300, 420))) + b"\n" for _ in range(2 if polling else r.randrange(1, 6)))
            if r.random() < .5:
                data += r.randbytes(10)
        chunks, rest = [], data
        while rest:
            n = rest.find(b"\n") + 1 or len(rest)
            chunks.append(rest[:n])
            rest = rest[n:]
        to = base + 0x10000
        key = r.choice((0, 1, 0x55, 0xff))
        e = asm.elf(xlen, [(base, echo_program(xlen, base, len(data), key, polling), None, 1)], base,
                    {"tohost": to, "fromhost": to + 8})
        cfg = Config(xlen, e, base=base, name="echo%d" % k, args=[b"echo%d.elf" % k])
        steps = 30 * len(data) + 400 * len(chunks) + 500 if not polling else 5000 * (len(chunks) + 2) + 20 * len(data)
        out.append(Run("echo%d" % k, cfg, stdin=chunks, steps=steps))
        keys.add((xlen, "echo", polling, len(chunks), key))
    return out
