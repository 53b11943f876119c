----------------------------------- MODULE Elf -----------------------------------
(***************************************************************************)
(* ELF files (little endian, class 32 and 64) as sequences of bytes, and   *)
(* the configuration of the machine that a program file, a kernel image,   *)
(* an initrd and the command line give.                                    *)
(***************************************************************************)
EXTENDS Word, FiniteSets, TLC

\* byte at offset o; half, word and doubleword as machine words
Byte(f, o) == f[o + 1]
Le2(f, o) == f[o + 1] + 256 * f[o + 2]
W4(f, o) == <<Le2(f, o), Le2(f, o + 2), 0, 0>>
W8(f, o) == <<Le2(f, o), Le2(f, o + 2), Le2(f, o + 4), Le2(f, o + 6)>>

\* an offset or size within a file: a small integer
I4(f, o) == Low31(W4(f, o))
I8(f, o) == Low31(W8(f, o))

Is64(f) == Byte(f, 4) = 2

IsElf(f) == Len(f) >= 52 /\ SubSeq(f, 1, 4) = <<127, 69, 76, 70>> /\ Byte(f, 4) \in {1, 2}

(* ---- program headers: [load, off, paddr (word), size] ---- *)

PhOff(f) == IF Is64(f) THEN I8(f, 32) ELSE I4(f, 28)
PhNum(f) == IF Is64(f) THEN Le2(f, 56) ELSE Le2(f, 44)
PhEnt(f) == IF Is64(f) THEN Le2(f, 54) ELSE Le2(f, 42)

Phdr(f, i) ==
  LET h == PhOff(f) + PhEnt(f) * i
  IN IF Is64(f)
     THEN [load |-> W4(f, h) = One, off |-> I8(f, h + 8), paddr |-> W8(f, h + 24), size |-> I8(f, h + 32)]
     ELSE [load |-> W4(f, h) = One, off |-> I4(f, h + 4), paddr |-> W4(f, h + 12), size |-> I4(f, h + 16)]

\* the loadable segments, in file order
Loadable(f) == LET all == [i \in 1..PhNum(f) |-> Phdr(f, i - 1)]
                   L(p) == p.load
               IN SelectSeq(all, L)

(* ---- sections and symbols ---- *)

ShOff(f) == IF Is64(f) THEN I8(f, 40) ELSE I4(f, 32)
ShNum(f) == IF Is64(f) THEN Le2(f, 60) ELSE Le2(f, 48)
ShEnt(f) == IF Is64(f) THEN Le2(f, 58) ELSE Le2(f, 46)

Shdr(f, i) ==
  LET h == ShOff(f) + ShEnt(f) * i
  IN IF Is64(f)
     THEN [type |-> I4(f, h + 4), off |-> I8(f, h + 24), size |-> I8(f, h + 32), link |-> I4(f, h + 40)]
     ELSE [type |-> I4(f, h + 4), off |-> I4(f, h + 16), size |-> I4(f, h + 20), link |-> I4(f, h + 24)]

SYMTAB == 2

\* does the NUL-terminated string at offset o equal the byte sequence n?
StringIs(f, o, n) == /\ o + Len(n) < Len(f)
                     /\ \A i \in 1..Len(n) : f[o + i] = n[i]
                     /\ f[o + Len(n) + 1] = 0

SymEnt(f) == IF Is64(f) THEN 24 ELSE 16

\* value of the symbol named n: <<>> or <<word>>
Symbol(f, n) ==
  LET tabs == {i \in 0..(ShNum(f) - 1) : Shdr(f, i).type = SYMTAB}
      hits == UNION {LET t == Shdr(f, i)
                         str == Shdr(f, t.link).off
                     IN {t.off + SymEnt(f) * k : k \in {k \in 0..((t.size \div SymEnt(f)) - 1) :
                           StringIs(f, str + I4(f, t.off + SymEnt(f) * k), n)}} : i \in tabs}
  IN IF hits = {} THEN <<>>
     ELSE LET h == CHOOSE h \in hits : TRUE
          IN <<IF Is64(f) THEN W8(f, h + 8) ELSE W4(f, h + 4)>>

TOHOST   == <<116, 111, 104, 111, 115, 116>>
FROMHOST == <<102, 114, 111, 109, 104, 111, 115, 116>>

(* ---- DRAM contents ---- *)

\* a piece of DRAM: [at (byte offset into DRAM), f (bytes), off, size]
KERNELOFF(rv) == IF rv = 32 THEN 4194304 ELSE 2097152

\* the initrd ends one page below the end of DRAM
INITRDEND == 2147483647 - 4095                  \* 2 GiB - 4096

Pieces(rv, base, f, kernel, initrd) ==
  LET segs == Loadable(f)
  IN [i \in 1..Len(segs) |-> [at |-> Low31(Sub(segs[i].paddr, base)), f |-> f, off |-> segs[i].off, size |-> segs[i].size]]
     \o <<[at |-> KERNELOFF(rv), f |-> kernel, off |-> 0, size |-> Len(kernel)],
          [at |-> INITRDEND - Len(initrd), f |-> initrd, off |-> 0, size |-> Len(initrd)]>>

\* a later piece covers an earlier one
ImageByte(ps, o) ==
  LET in == {i \in 1..Len(ps) : o >= ps[i].at /\ o - ps[i].at < ps[i].size}
  IN IF in = {} THEN 0
     ELSE LET i == CHOOSE i \in in : \A j \in in : j <= i
          IN ps[i].f[ps[i].off + (o - ps[i].at) + 1]

\* the blocks of 64 halfwords that are not all zero
Image(ps) ==
  LET blocks == TLCEval(UNION {IF ps[i].size = 0 THEN {}
                               ELSE (ps[i].at \div 128)..((ps[i].at + ps[i].size - 1) \div 128) : i \in 1..Len(ps)})
      over(b) == LET near(p) == p.size > 0 /\ 128 * b <= p.at + p.size - 1 /\ p.at - 128 * b < 128
                 IN SelectSeq(ps, near)
      block(b) == LET mine == over(b)
                  IN [j \in 1..64 |-> LET o == 128 * b + 2 * (j - 1) IN ImageByte(mine, o) + 256 * ImageByte(mine, o + 1)]
      all == TLCEval([b \in blocks |-> TLCEval(block(b))])
      zero == [j \in 1..64 |-> 0]
      some == TLCEval({b \in blocks : all[b] # zero})
  IN TLCEval([b \in some |-> all[b]])

(* ---- the configuration ---- *)

\* r: a recorded configuration [elf, kernel, initrd (bytes), pc (<<>> or <<word>>), args, rom]
\* a file that is not run
Inert(r) == [rv |-> r.xlen, rom |-> <<>>, base |-> Zero, image |-> Image(<<>>), initrd |-> 0, pc |-> Zero, htif |-> FALSE,
             tohost |-> Zero, fromhost |-> Zero, args |-> <<>>, log |-> 0, level |-> "nolog", file |-> r.elf]

Configure(r) ==
  IF r.inert = 1 THEN Inert(r) ELSE
  LET f    == r.elf
      rv   == IF Is64(f) THEN 64 ELSE 32
      base == Loadable(f)[1].paddr
      to   == Symbol(f, TOHOST)
      from == Symbol(f, FROMHOST)
      both == to # <<>> /\ from # <<>>
  IN [rv |-> rv, rom |-> r.rom, base |-> base,
      image |-> Image(Pieces(rv, base, f, r.kernel, r.initrd)),
      initrd |-> Len(r.initrd),
      pc |-> IF r.pc = <<>> THEN FromInt(4096) ELSE r.pc[1],
      htif |-> both,
      tohost |-> IF both THEN to[1] ELSE Zero, fromhost |-> IF both THEN from[1] ELSE Zero,
      args |-> r.args, log |-> r.log, level |-> r.level]
=============================================================================
