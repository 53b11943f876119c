-------------------------------- MODULE Machine --------------------------------
(***************************************************************************)
(* The state of the emulated machine and its physical address space:       *)
(* boot ROM, CLINT, PLIC, UART, DRAM.                                      *)
(*                                                                         *)
(* A machine state is a record                                             *)
(*   rv    32 or 64                                                        *)
(*   cf    the configuration (program, images, options) that was started   *)
(*   pc    word            prv   0 (U), 1 (S), 3 (M)                       *)
(*   x     31-tuple of words: x1..x31                                      *)
(*   csr   CSR number -> word, for those that were ever nonzero            *)
(*   trig  [sel, d1, d2]: the breakpoint triggers                          *)
(*   resv  <<>> or the physical address of the LR reservation              *)
(*   mem   DRAM contents: block -> 64 halfwords, zero elsewhere            *)
(*   wr    halfwords of DRAM written by the current step                   *)
(*   clint doubleword index -> word, for those that were ever nonzero      *)
(*   plic, uart   device states                                            *)
(*   inq   console input not yet taken: sequence of chunks                 *)
(*   out   bytes transmitted by the current step                           *)
(*   log   bytes transmitted (kept only when a program runs unobserved)     *)
(*   cnt   iterations since the last batch boundary: 0..BATCH-1            *)
(***************************************************************************)
EXTENDS Isa, FiniteSets, TLC

(* A configuration is a record with                                        *)
(*   rv    32 or 64, by the program's class                                *)
(*   rom   the halfwords of the boot ROM, at ROMBASE                       *)
(*   base  where DRAM starts, an even word                                 *)
(*   image the initial DRAM: block -> 64 halfwords, zero elsewhere         *)
(*   pc    where execution starts                                          *)
(*   htif  the program has both mailbox symbols                            *)
(*   tohost, fromhost   their addresses                                    *)
(*   args  the argument vector for the guest, sequences of bytes           *)

Plic == INSTANCE Plic WITH NSRC <- 31, NPRIO <- 16
Uart == INSTANCE Uart WITH QSIZE <- 64, BACKOFF <- 16

BATCH == 5000             \* instructions per batch
TICKS == 50               \* time per batch

ROMBASE == 4096

X(s, i) == IF i = 0 THEN Zero ELSE s.x[i]
SetX(s, i, v) == IF i = 0 THEN s ELSE [s EXCEPT !.x[i] = Norm(s.rv, v)]

(* ---------------------------------------------------------------------- *)
(* DRAM                                                                   *)
(* ---------------------------------------------------------------------- *)

\* 2 GiB of it
DramOff(s, a) == Sub(a, s.cf.base)
InDram(s, a) == LET o == DramOff(s, a) IN o[4] = 0 /\ o[3] = 0 /\ o[2] < 32768
HalfIx(s, a) == LET o == DramOff(s, a) IN o[2] * 32768 + o[1] \div 2

ZeroBlock == [j \in 1..64 |-> 0]

MemHalf(mem, k) == LET b == k \div 64
                   IN IF b \in DOMAIN mem THEN mem[b][(k % 64) + 1] ELSE 0

WithBlock(mem, b) == IF b \in DOMAIN mem THEN mem
                     ELSE TLCEval([c \in DOMAIN mem \cup {b} |-> IF c = b THEN ZeroBlock ELSE mem[c]])

PutHalf(mem, k, v) == [WithBlock(mem, k \div 64) EXCEPT ![k \div 64][(k % 64) + 1] = v]

\* mem with the halfwords vs from index k on
RECURSIVE PutFew(_, _, _)
PutFew(mem, k, vs) == IF vs = <<>> THEN mem ELSE PutFew(PutHalf(mem, k, Head(vs)), k + 1, Tail(vs))

PutMany(mem, k, vs) ==
  LET last   == k + Len(vs) - 1
      blocks == (k \div 64)..(last \div 64)
      Old(b) == IF b \in DOMAIN mem THEN mem[b] ELSE ZeroBlock
      New(b) == LET o  == Old(b)
                    lo == IF k > 64 * b THEN k - 64 * b ELSE 0              \* kept at the start
                    hi == IF last < 64 * b + 63 THEN last - 64 * b + 1 ELSE 64
                IN SubSeq(o, 1, lo) \o SubSeq(vs, 64 * b + lo - k + 1, 64 * b + hi - k) \o SubSeq(o, hi + 1, 64)
  IN IF blocks \subseteq DOMAIN mem
     THEN LET RECURSIVE Go(_, _)
              Go(m, b) == IF b > last \div 64 THEN m ELSE Go([m EXCEPT ![b] = New(b)], b + 1)
          IN Go(mem, k \div 64)
     ELSE TLCEval([b \in DOMAIN mem \cup blocks |-> IF b \in blocks THEN New(b) ELSE mem[b]])

PutHalves(mem, k, vs) == IF Len(vs) <= 4 THEN PutFew(mem, k, vs) ELSE PutMany(mem, k, vs)

DramLoad(s, a, n) ==
  LET k == HalfIx(s, a)
      mem == s.mem
  IN CASE n = 1 -> <<IF a[1] % 2 = 0 THEN MemHalf(mem, k) % 256 ELSE MemHalf(mem, k) \div 256, 0, 0, 0>>
       [] n = 2 -> <<MemHalf(mem, k), 0, 0, 0>>
       [] n = 4 -> <<MemHalf(mem, k), MemHalf(mem, k + 1), 0, 0>>
       [] n = 8 -> <<MemHalf(mem, k), MemHalf(mem, k + 1), MemHalf(mem, k + 2), MemHalf(mem, k + 3)>>

DramStore(s, a, n, v) ==
  LET k == HalfIx(s, a)
      o == MemHalf(s.mem, k)
      vs == CASE n = 1 -> <<IF a[1] % 2 = 0 THEN (o \div 256) * 256 + (v[1] % 256)
                            ELSE (o % 256) + 256 * (v[1] % 256)>>
              [] n = 2 -> <<v[1]>>
              [] n = 4 -> <<v[1], v[2]>>
              [] n = 8 -> v
  IN [s EXCEPT !.mem = PutHalves(@, k, vs), !.wr = @ \cup (k..(k + Len(vs) - 1))]

(* ---------------------------------------------------------------------- *)
(* boot ROM                                                               *)
(* ---------------------------------------------------------------------- *)

InRom(s, a) == /\ a[4] = 0 /\ a[3] = 0 /\ a[2] < 16
               /\ a[2] * 65536 + a[1] >= ROMBASE /\ a[2] * 65536 + a[1] < ROMBASE + 2 * Len(s.cf.rom)
RomHalf(s, a) == s.cf.rom[((a[2] * 65536 + a[1] - ROMBASE) \div 2) + 1]

RomLoad(s, a, n) ==
  LET h == RomHalf(s, a)
  IN CASE n = 1 -> <<IF a[1] % 2 = 0 THEN h % 256 ELSE h \div 256, 0, 0, 0>>
       [] n = 2 -> <<h, 0, 0, 0>>
       [] n = 4 -> <<h, RomHalf(s, AddI(a, 2)), 0, 0>>
       [] n = 8 -> <<h, RomHalf(s, AddI(a, 2)), RomHalf(s, AddI(a, 4)), RomHalf(s, AddI(a, 6))>>

(* ---------------------------------------------------------------------- *)
(* CLINT: storage, 32- and 64-bit accesses only                           *)
(* ---------------------------------------------------------------------- *)

InClint(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] = 512
MTIMECMP == 2048          \* 0x4000 / 8
MTIME    == 6143          \* 0xbff8 / 8

ClintDW(c, i) == IF i \in DOMAIN c THEN c[i] ELSE Zero
PutDW(c, i, v) == IF i \in DOMAIN c THEN [c EXCEPT ![i] = v]
                  ELSE [j \in DOMAIN c \cup {i} |-> IF j = i THEN v ELSE c[j]]

ClintLoad(c, a, n) ==
  LET d == ClintDW(c, a[1] \div 8)
  IN IF n = 8 THEN d ELSE IF (a[1] \div 4) % 2 = 0 THEN <<d[1], d[2], 0, 0>> ELSE <<d[3], d[4], 0, 0>>

ClintStore(c, a, n, v) ==
  LET i == a[1] \div 8
      d == ClintDW(c, i)
  IN PutDW(c, i, IF n = 8 THEN v
                 ELSE IF (a[1] \div 4) % 2 = 0 THEN <<v[1], v[2], d[3], d[4]>>
                 ELSE <<d[1], d[2], v[1], v[2]>>)

(* ---------------------------------------------------------------------- *)
(* PLIC: 32-bit registers; a 64-bit access is two accesses, low first     *)
(* ---------------------------------------------------------------------- *)

InPlic(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] \div 256 = 12
PlicOff(a) == (a[2] - 3072) * 65536 + a[1]

RECURSIVE SumBits(_, _)
SumBits(S, i) == IF i < 0 THEN 0 ELSE (IF i \in S THEN 2^i ELSE 0) + SumBits(S, i - 1)
BitsOf(S) == <<SumBits(S, 15), SumBits({i - 16 : i \in S}, 15), 0, 0>>
SetOf(v) == {i \in 1..31 : Bit(v, i) = 1}

\* [ok, v, p]
PlicRead32(p, o) ==
  LET Ok(v, q) == [ok |-> TRUE, v |-> v, p |-> q]
      Bad == [ok |-> FALSE, v |-> Zero, p |-> p]
  IN IF o < 8192
     THEN Ok(IF o \div 4 \in Plic!Src THEN FromInt(p.pri[o \div 4]) ELSE Zero, p)
     ELSE IF o < 2097152
     THEN LET c == (o - 8192) \div 128
          IN IF c >= 2 THEN Bad
             ELSE Ok(IF (o % 128) \div 4 = 0 THEN BitsOf(p.en[c + 1]) ELSE Zero, p)
     ELSE LET c == (o - 2097152) \div 4096
              r == o % 4096
          IN IF c >= 2 \/ r \notin {0, 4} THEN Bad
             ELSE IF r = 0 THEN Ok(FromInt(p.thr[c + 1]), p)
             ELSE LET q == Plic!Claim(p, c + 1) IN Ok(FromInt(q.id), q.p)

PlicWrite32(p, o, v) ==
  LET Ok(q) == [ok |-> TRUE, p |-> q]
      Bad == [ok |-> FALSE, p |-> p]
  IN IF o < 8192
     THEN Ok(Plic!SetPriority(p, o \div 4, v[1]))
     ELSE IF o < 2097152
     THEN LET c == (o - 8192) \div 128
          IN IF c >= 2 THEN Bad
             ELSE Ok(IF (o % 128) \div 4 = 0 THEN Plic!SetEnable(p, c + 1, SetOf(v)) ELSE p)
     ELSE LET c == (o - 2097152) \div 4096
              r == o % 4096
          IN IF c >= 2 \/ r \notin {0, 4} THEN Bad
             ELSE IF r = 0 THEN Ok(Plic!SetThreshold(p, c + 1, v[1]))
             ELSE Ok(IF v[2] # 0 THEN p ELSE Plic!Complete(p, c + 1, v[1]))

(* ---------------------------------------------------------------------- *)
(* UART                                                                   *)
(* ---------------------------------------------------------------------- *)

InUart(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] = 4096 /\ a[1] < 256

\* the UART's interrupt line is source 1 of the PLIC
Line(p, line) == IF line = "" THEN p ELSE Plic!SetLevel(p, 1, line = "high")

(* ---------------------------------------------------------------------- *)
(* the physical address space                                             *)
(* ---------------------------------------------------------------------- *)

\* a naturally aligned load of n bytes: [ok, v (zero extended), s]
PLoad(s, a, n) ==
  LET Ok(v) == [ok |-> TRUE, v |-> v, s |-> s]
      Bad == [ok |-> FALSE, v |-> Zero, s |-> s]
  IN CASE InDram(s, a) -> Ok(DramLoad(s, a, n))
       [] InRom(s, a) -> Ok(RomLoad(s, a, n))
       [] InClint(a) -> IF n \in {4, 8} THEN Ok(ClintLoad(s.clint, a, n)) ELSE Bad
       [] InPlic(a) ->
            IF n \notin {4, 8} THEN Bad
            ELSE LET r == PlicRead32(s.plic, PlicOff(a))
                 IN IF ~r.ok THEN Bad
                    ELSE IF n = 4 THEN [ok |-> TRUE, v |-> r.v, s |-> [s EXCEPT !.plic = r.p]]
                    ELSE LET r2 == PlicRead32(r.p, PlicOff(a) + 4)
                         IN IF ~r2.ok THEN Bad
                            ELSE [ok |-> TRUE, v |-> <<r.v[1], r.v[2], r2.v[1], r2.v[2]>>,
                                  s |-> [s EXCEPT !.plic = r2.p]]
       [] InUart(a) ->
            IF n # 1 THEN Bad
            ELSE LET r == Uart!Read(s.uart, a[1])
                 IN [ok |-> TRUE, v |-> FromInt(r.v),
                     s |-> [s EXCEPT !.uart = r.u, !.plic = Line(@, r.line)]]
       [] OTHER -> Bad

\* a naturally aligned store of the low n bytes of v: [ok, s]
PStore(s, a, n, v) ==
  LET Ok(t) == [ok |-> TRUE, s |-> t]
      Bad == [ok |-> FALSE, s |-> s]
  IN CASE InDram(s, a) -> Ok(DramStore(s, a, n, v))
       [] InRom(s, a) -> Bad
       [] InClint(a) -> IF n \in {4, 8} THEN Ok([s EXCEPT !.clint = ClintStore(@, a, n, v)]) ELSE Bad
       [] InPlic(a) ->
            IF n \notin {4, 8} THEN Bad
            ELSE LET r == PlicWrite32(s.plic, PlicOff(a), <<v[1], v[2], 0, 0>>)
                 IN IF ~r.ok THEN Bad
                    ELSE IF n = 4 THEN Ok([s EXCEPT !.plic = r.p])
                    ELSE LET r2 == PlicWrite32(r.p, PlicOff(a) + 4, <<v[3], v[4], 0, 0>>)
                         IN IF ~r2.ok THEN Bad ELSE Ok([s EXCEPT !.plic = r2.p])
       [] InUart(a) ->
            IF n # 1 THEN Bad
            ELSE LET r == Uart!Write(s.uart, a[1], v[1] % 256)
                 IN Ok([s EXCEPT !.uart = r.u, !.plic = Line(@, r.line), !.out = @ \o r.tx])
       [] OTHER -> Bad

\* instructions come from ROM and DRAM only: [ok, h]
PFetch(s, a) ==
  CASE InDram(s, a) -> [ok |-> TRUE, h |-> MemHalf(s.mem, HalfIx(s, a))]
    [] InRom(s, a) -> [ok |-> TRUE, h |-> RomHalf(s, a)]
    [] OTHER -> [ok |-> FALSE, h |-> 0]
=============================================================================
