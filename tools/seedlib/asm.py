"""RISC-V encodings (only what the generators need) and an ELF writer."""
import struct

M32 = 0xffffffff
M64 = 0xffffffffffffffff


def r_type(op, f3, f7, rd, rs1, rs2):
    return (f7 & 127) << 25 | (rs2 & 31) << 20 | (rs1 & 31) << 15 | f3 << 12 | (rd & 31) << 7 | op


def i_type(op, f3, rd, rs1, imm):
    return (imm & 0xfff) << 20 | (rs1 & 31) << 15 | f3 << 12 | (rd & 31) << 7 | op


def s_type(op, f3, rs1, rs2, imm):
    return (imm >> 5 & 127) << 25 | (rs2 & 31) << 20 | (rs1 & 31) << 15 | f3 << 12 | (imm & 31) << 7 | op


def b_type(f3, rs1, rs2, imm):
    return ((imm >> 12 & 1) << 31 | (imm >> 5 & 63) << 25 | (rs2 & 31) << 20 | (rs1 & 31) << 15 | f3 << 12
            | (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63)


def u_type(op, rd, imm20):
    return (imm20 & 0xfffff) << 12 | (rd & 31) << 7 | op


def jal(rd, imm):
    return ((imm >> 20 & 1) << 31 | (imm >> 1 & 0x3ff) << 21 | (imm >> 11 & 1) << 20 | (imm >> 12 & 255) << 12
            | (rd & 31) << 7 | 0x6f)


def lui(rd, i): return u_type(0x37, rd, i)
def auipc(rd, i): return u_type(0x17, rd, i)
def jalr(rd, rs1, imm): return i_type(0x67, 0, rd, rs1, imm)
def addi(rd, rs1, imm): return i_type(0x13, 0, rd, rs1, imm)
def addiw(rd, rs1, imm): return i_type(0x1b, 0, rd, rs1, imm)
def add(rd, a, b): return r_type(0x33, 0, 0, rd, a, b)
def slli(rd, rs1, n): return n << 20 | (rs1 & 31) << 15 | 1 << 12 | (rd & 31) << 7 | 0x13
def load(f3, rd, rs1, imm): return i_type(3, f3, rd, rs1, imm)
def store(f3, rs1, rs2, imm): return s_type(0x23, f3, rs1, rs2, imm)
def csr(f3, rd, rs1, num): return i_type(0x73, f3, rd, rs1, num)
def csrrw(rd, num, rs1): return csr(1, rd, rs1, num)
def csrrs(rd, num, rs1): return csr(2, rd, rs1, num)
def csrrc(rd, num, rs1): return csr(3, rd, rs1, num)


def amo(f5, size, rd, rs1, rs2, aqrl=0):
    return r_type(0x2f, 2 if size == 4 else 3, f5 << 2 | aqrl, rd, rs1, rs2)


AMO = dict(add=0, swap=1, lr=2, sc=3, xor=4, or_=8, and_=12, min=16, max=20, minu=24, maxu=28)
LD = {(1, True): 0, (2, True): 1, (4, True): 2, (8, True): 3, (1, False): 4, (2, False): 5, (4, False): 6}
ST = {1: 0, 2: 1, 4: 2, 8: 3}

NOP = 0x13
SELF = 0x6f               # j .
ECALL, EBREAK, MRET, SRET, WFI = 0x73, 0x100073, 0x30200073, 0x10200073, 0x10500073
FENCE, FENCE_I = 0x0ff0000f, 0x100f
C_NOP, C_EBREAK = 1, 0x9002


def sfence(rs1=0, rs2=0): return r_type(0x73, 0, 9, 0, rs1, rs2)


def li(rd, v, xlen):
    """instructions loading a constant"""
    v &= M32 if xlen == 32 else M64
    if xlen == 32 or v < 0x80000000 or v >= 0xffffffff80000000:
        s = v & M32
        lo = (s & 0xfff) - (0x1000 if s & 0x800 else 0)
        hi = (s - lo) >> 12 & 0xfffff
        if xlen == 64 and 0 < v < 0x80000000 and hi == 0x80000:
            # lui would sign extend
            return [lui(rd, 0x40000), slli(rd, rd, 1), addi(rd, rd, lo)]
        if hi == 0:
            return [addi(rd, 0, lo)]
        out = [lui(rd, hi)]
        if lo:
            out.append((addi if xlen == 32 else addiw)(rd, rd, lo))
        return out
    out = li(rd, v >> 33, 64)
    # three chunks of 11 bits
    for k in (22, 11, 0):
        out.append(slli(rd, rd, 11))
        c = v >> k & 0x7ff
        if c:
            out.append(addi(rd, rd, c))
    return out


def w32(*insts):
    return b"".join(struct.pack("<I", i) for i in insts)


def w16(*insts):
    return b"".join(struct.pack("<H", i) for i in insts)


def code(insts):
    """32-bit words and (value, 16) pairs"""
    out = b""
    for i in insts:
        out += w16(i[0]) if isinstance(i, tuple) else w32(i)
    return out


def elf(xlen, segments, entry, symbols=None, extra_phdrs=(), etype=2, shoff_pad=0, phoff_pad=0):
    """segments: [(paddr, bytes, memsz or None, p_type)]; symbols: {name: value}"""
    is64 = xlen == 64
    eh, ph, sh = (64, 56, 64) if is64 else (52, 32, 40)
    nph = len(segments)
    phoff = eh + phoff_pad
    data_off = phoff + ph * nph
    recs = []
    blob = bytearray()
    for (paddr, data, memsz, ptype) in segments:
        o = data_off + len(blob)
        blob += data
        recs.append((ptype, o, paddr, len(data), len(data) if memsz is None else memsz))
    secs = []  # (name, type, offset, size, link, entsize, addr)
    strtab = bytearray(b"\0")
    shstr = bytearray(b"\0")

    def nm(tab, s):
        o = len(tab)
        tab.extend(s.encode() + b"\0")
        return o
    if symbols is not None:
        syms = bytearray(24 if is64 else 16)
        for k, v in symbols.items():
            n = nm(strtab, k)
            if is64:
                syms += struct.pack("<IBBHQQ", n, 0x10, 0, 1, v, 8)
            else:
                syms += struct.pack("<IIIBBH", n, v, 8, 0x10, 0, 1)
        names = [nm(shstr, x) for x in (".symtab", ".strtab", ".shstrtab")]
        o = data_off + len(blob)
        blob += syms
        secs.append((names[0], 2, o, len(syms), 2, 24 if is64 else 16))
        o = data_off + len(blob)
        blob += strtab
        secs.append((names[1], 3, o, len(strtab), 0, 0))
        o = data_off + len(blob)
        blob += shstr
        secs.append((names[2], 3, o, len(shstr), 0, 0))
    blob += bytes(shoff_pad)
    while (data_off + len(blob)) % 8:
        blob += b"\0"
    shoff = data_off + len(blob)
    nsh = 0
    if symbols is not None:
        nsh = 1 + len(secs)
        blob += bytes(sh)
        for (n, t, o, size, link, ent) in secs:
            if is64:
                blob += struct.pack("<IIQQQQIIQQ", n, t, 0, 0, o, size, link, 1, 8, ent)
            else:
                blob += struct.pack("<IIIIIIIIII", n, t, 0, 0, o, size, link, 1, 4, ent)
    else:
        shoff = 0
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1, 1, 0]) + bytes(8)
    if is64:
        h = ident + struct.pack("<HHIQQQIHHHHHH", etype, 243, 1, entry, phoff, shoff, 0, eh, ph, nph, sh, nsh,
                                nsh - 1 if nsh else 0)
    else:
        h = ident + struct.pack("<HHIIIIIHHHHHH", etype, 243, 1, entry, phoff, shoff, 0, eh, ph, nph, sh, nsh,
                                nsh - 1 if nsh else 0)
    h += bytes(phoff_pad)
    for (t, o, paddr, fs, ms) in recs:
        if is64:
            h += struct.pack("<IIQQQQQQ", t, 7, o, paddr, paddr, fs, ms, 0x1000)
        else:
            h += struct.pack("<IIIIIIII", t, o, paddr, paddr, fs, ms, 7, 0x1000)
    return bytes(h) + bytes(blob)


def tiny_elf(xlen):
    return elf(xlen, [(0x80000000, w32(SELF), None, 1)], 0x80000000)
