"""C32: the inspection options print what the ELF file says."""
import json, struct, subprocess
from . import asm, gen
from .checks import check, mc, rng, XL
from .checks_sys import rand_inst
from .core import Config, Scen


class Look(Scen):
    """the emulator started with an inspection option"""

    def __init__(self, name, cfg, opt, spell, first):
        Scen.__init__(self, name, cfg.xlen, cfg)
        self.opt, self.spell, self.first = opt, spell, first

    def text(self):
        return "# %s on %s\n# cfg %s\nS %s\nE\n" % (self.spell, self.full(), json.dumps(self.cfg.save()), self.full())

    def execute(self, c, k):
        o = self.cfg.command(c, str(k))
        o = [self.spell] + o if self.first else o + [self.spell]
        try:
            r = subprocess.run([c.carron] + [x for x in o if x], input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=c.work, timeout=60)
            status, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            status, out = -1000, e.stdout or b""
        mark = b"\nIn file %s\n" % self.cfg.filename
        ok = b"elfcheck: OK\n\n"
        lines, banner = [], "none"
        if out.startswith(mark):
            banner, out = "file", out[len(mark):]
            if out.startswith(ok):
                banner, out = "ok", out[len(ok):]
        lines = out.decode("latin1").split("\n")
        tail = lines.pop()
        if tail:
            lines.append(tail + "<no newline>")
        ev = [{"k": "I", "opt": self.opt, "banner": banner, "lines": lines, "status": status}]
        return json.dumps({"id": self.full(), "rv": self.xlen, "cf": k, "win": [], "ev": ev}, separators=(",", ":")) + "\n"


NAMES = (".text", ".text.init", ".init", ".data", ".bss", ".rodata", ".tohost", ".symtab", ".comment", "", "x", ".riscv.attributes",
         "a name with spaces", "~weird!\"#\\{}", "q" * 60)


def code(r, xlen, n):
    """n instructions or what is none"""
    b = bytearray()
    for _ in range(n):
        k = r.random()
        if k < .45:
            v = rand_inst(r, xlen)
            b += asm.code([v])
        elif k < .75:
            b += struct.pack("<H", r.choice([v for v in (r.getrandbits(16) for _ in range(8)) if v & 3 != 3] or [1]))
        elif k < .95:
            # 32 bits with an opcode that exists
            v = r.getrandbits(32) & ~0x7f | r.choice((0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x1b, 0x3b, 0x0f, 0x2f, 0x73))
            if r.random() < .6 and v & 0x7f in (0x33, 0x3b, 0x13, 0x1b):
                v = v & 0x1ffffff | r.choice((0, 1, 32)) << 25
            if v & 0x7f == 0x2f:
                v = v & ~0x7000 | r.choice((2, 3)) << 12
                if r.random() < .5:
                    v = v & 0x7ffffff | r.choice((0, 1, 2, 3, 4, 8, 12, 16, 20, 24, 28)) << 27
                if v >> 27 == 2 and r.random() < .7:
                    v &= ~(31 << 20)
            if v & 0x707f == 0x73 and r.random() < .9:
                v = r.choice((0x73, 0x100073, 0x10200073, 0x30200073, 0x10500073, 0x12000073 | r.getrandbits(10) << 15))
            b += struct.pack("<I", v)
        else:
            b += r.randbytes(r.choice((2, 4)))
    return bytes(b)


def any_elf(r, xlen, clean=False):
    """an ELF file with all kinds of values in its headers"""
    is64 = xlen == 64
    eh, phs, shs = (64, 56, 64) if is64 else (52, 32, 40)
    phent, shent = phs + r.choice((0, 0, 0, 8)), shs + r.choice((0, 0, 0, 16))
    num = lambda: r.choice((0, 1, 9, 10, 0x1000, 0x80000000, 0xffffffff, r.getrandbits(16), r.getrandbits(32))
                           + ((asm.M64, 1 << 63, 1 << 32, r.getrandbits(64), 10 ** 19, 10 ** 10) if is64 else ()))
    nph, nsh = r.choice((0, 1, 2, 4)), r.choice((1, 2, 3, 6))
    body = bytearray(r.randbytes(r.randrange(20)))
    place = lambda d: (eh + len(body), body.extend(d))[0]
    segs, secs = [], []
    for _ in range(nph):
        d = r.randbytes(r.choice((0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 64, 100)))
        o = place(d)
        segs.append((o, len(d)))
    texts = []
    for k in range(nsh):
        ex = r.random() < .5
        d = code(r, xlen, r.randrange(12)) if ex else r.randbytes(r.randrange(20))
        if ex and r.random() < .25:
            d = d[:-1] if r.random() < .5 else d[:-2] if len(d) > 1 else d
        if len(body) + eh & 1:
            place(b"\0")
        texts.append(d)
        secs.append((place(d), len(d), ex))
    names, at = bytearray(b"\0"), []
    for _ in range(nsh):
        n = r.choice(NAMES).encode() + b"\0"
        if n in names and r.random() < .5:
            at.append(names.index(n))
        else:
            at.append(len(names))
            names += n
    noff = place(names)
    last = r.choice(("ph", "sh", "text", "seg"))
    tables = {}

    def align():
        place(bytes(-(eh + len(body)) % 8))
    for t, n in (("ph", phent * nph), ("sh", shent * nsh)):
        align()
        tables[t] = place(bytes(n))
    # the end of the file is the end of a section or of a segment
    if last == "text":
        k = r.randrange(nsh)
        d = texts[k] if secs[k][2] else code(r, xlen, 3)
        secs[k] = (place(d), len(d), True)
    elif last == "seg" and nph:
        k = r.randrange(nph)
        d = r.randbytes(r.choice((1, 2, 3, 4, 7, 30)))
        segs[k] = (place(d), len(d))
    out = bytearray(eh) + body
    for k, (o, n) in enumerate(segs):
        typ = r.choice((0, 1, 1, 1, 2, 3, 4, 5, 6, 0x6474e551, 0x70000003, 0x10001))
        memsz = r.choice((n, n, n + 1, n + 4096, num()))
        h = tables["ph"] + phent * k
        v = [typ, r.getrandbits(32) if r.random() < .2 else r.randrange(8), o, num(), num(), n, memsz, num()]
        out[h:h + phs] = struct.pack("<IIQQQQQQ", *v) if is64 else struct.pack("<IIIIIIII", v[0], v[2], v[3], v[4], v[5], v[6], v[1], v[7])
    strndx = r.randrange(nsh)
    for k, (o, n, ex) in enumerate(secs):
        typ = r.choice((0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 0x60000000, 0x70000003, 0x10001) + (() if ex else (8,)))
        fl = (num() & ~4) | (4 if ex else 0)
        if k == strndx:
            o, n, ex, fl = noff, len(names), False, fl & ~4
        if not ex and r.random() < .2:
            n = num()
            o = o if k == strndx else num()
        h = tables["sh"] + shent * k
        v = [at[k], typ, fl, num(), o, n, r.getrandbits(32), r.getrandbits(8), num(), num()]
        out[h:h + shs] = struct.pack("<IIQQQQIIQQ" if is64 else "<IIIIIIIIII", *v)
    ident = b"\x7fELF" + bytes([2 if is64 else 1, r.choice((1, 1, 1, 2)), r.choice((1, 1, 0, 255)), r.choice((0, 3, 97, 255)), r.randrange(256)]) + r.randbytes(7)
    v = [r.choice((0, 1, 2, 2, 3, 4, 5, 0xfe00, 0xffff, 256)), r.choice((243, 62, 0, 65535)), r.choice((1, 0, 0xdeadbeef)), num(),
         tables["ph"], tables["sh"], r.choice((0, 1, 5, 0xffffffff)), r.choice((eh, 0, 65535)), phent, nph, shent, nsh, strndx]
    out[:eh] = ident + struct.pack("<HHIQQQIHHHHHH" if is64 else "<HHIIIIIHHHHHH", *v)
    return bytes(out)


SPELL = {"e": ("-e", "--elfhead"), "p": ("-p", "--program"), "s": ("-s", "--section"), "d": ("-d", "--disasem"), "a": ("-a", "--all")}


@check("C32")
def c32(c):
    r = rng(c)
    c.build(binary=True)
    out, keys = [], set()
    for k in range(180 if not c.thorough() else 1200):
        xlen = XL[k % 2]
        e = any_elf(r, xlen)
        refused = k % 6 in (4, 5)
        if refused:
            # not an ELF file
            j = k // 6 % 4
            e = e[:j] + bytes([e[j] ^ 1 << r.randrange(8)]) + e[j + 1:]
        cfg = Config(xlen, e, name="elf%d" % k, args=[b"elf%d" % k], inert=True)
        for opt in ("e", "p", "s", "d", "a", "") if refused else ("e", "p", r.choice("sd"), "a"):
            spell = r.choice(SPELL[opt]) if opt else ""
            first = r.random() < .5
            out.append(Look("look%d%s" % (k, opt), cfg, opt, spell, first))
            keys.add((xlen, spell, first, refused))
    # every kind of instruction
    for k in range(16 if not c.thorough() else 96):
        xlen = XL[k % 2]
        d = code(r, xlen, 250)
        e = any_elf(r, xlen)
        d = d + bytes(-(len(d)) % 2)
        cfg = Config(xlen, text_elf(xlen, d), name="text%d" % k, args=[b"text%d" % k], inert=True)
        out.append(Look("text%d" % k, cfg, "d", "-d", True))
        keys.add((xlen, "text", k))
    c.validate(out)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (xlen, option as written, before or after the file, ELF or not; text file)")


def text_elf(xlen, d):
    """one executable section"""
    is64 = xlen == 64
    eh, shs = (64, 64) if is64 else (52, 40)
    names = b"\0.text\0.shstrtab\0"
    off = eh + len(d)
    sh = off + len(names) + (-(off + len(names)) % 8)
    f = "<IIQQQQIIQQ" if is64 else "<IIIIIIIIII"
    b = bytes(shs) + struct.pack(f, 1, 1, 6, 0x80000000, eh, len(d), 0, 0, 4, 0) + struct.pack(f, 7, 3, 0, 0, off, len(names), 0, 0, 1, 0)
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1, 1]) + bytes(9)
    h = struct.pack("<HHIQQQIHHHHHH" if is64 else "<HHIIIIIHHHHHH", 2, 243, 1, 0x80000000, 0, sh, 0, eh, 0, 0, shs, 3, 2)
    return ident + h + d + names + bytes(sh - off - len(names)) + b
