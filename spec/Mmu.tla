---------------------------------- MODULE Mmu ----------------------------------
(***************************************************************************)
(* From virtual address to physical address: breakpoint triggers, Sv32 and *)
(* Sv39 page tables, page permissions, physical memory protection.         *)
(*                                                                         *)
(* purpose: "x" fetch, "r" load, "w" store or AMO.                         *)
(***************************************************************************)
EXTENDS Csr

PageFault(p)   == CASE p = "x" -> 12 [] p = "r" -> 13 [] p = "w" -> 15
AccessFault(p) == CASE p = "x" -> 1  [] p = "r" -> 5  [] p = "w" -> 7
Misaligned(p)  == CASE p = "x" -> 0  [] p = "r" -> 4  [] p = "w" -> 6
BREAKPOINT == 3

(* ---- triggers ---- *)

Fires(s, i, p, va) ==
  LET d1 == s.trig.d1[i]
      type == IF s.rv = 64 THEN d1[4] \div 4096 ELSE d1[2] \div 4096
  IN /\ type = 2
     /\ Field(d1, 7, 4) = 0                                             \* exact match
     /\ Bit(d1, CASE s.prv = 3 -> 6 [] s.prv = 1 -> 4 [] OTHER -> 3) = 1
     /\ Bit(d1, CASE p = "x" -> 2 [] p = "w" -> 1 [] OTHER -> 0) = 1
     /\ s.trig.d2[i] = va

Triggered(s, p, va) == \E i \in 1..8 : s.trig.d1[i] # Zero /\ Fires(s, i, p, va)

(* ---- page permissions: independent of the translation scheme ---- *)

\* a PTE is given by its flag bits
V(f) == f % 2        R(f) == (f \div 2) % 2   W(f) == (f \div 4) % 2  XX(f) == (f \div 8) % 2
U(f) == (f \div 16) % 2   A(f) == (f \div 64) % 2  D(f) == (f \div 128) % 2

ValidPte(f) == V(f) = 1 /\ ~(R(f) = 0 /\ W(f) = 1)
LeafPte(f)  == R(f) = 1 \/ XX(f) = 1

LeafAllows(f, p, prv, sum, mxr) ==
  /\ A(f) = 1
  /\ prv = 0 => U(f) = 1
  /\ CASE p = "x" -> XX(f) = 1 /\ (prv = 1 => U(f) = 0)
       [] p = "r" -> (R(f) = 1 \/ (mxr = 1 /\ XX(f) = 1)) /\ (prv = 1 /\ U(f) = 1 => sum = 1)
       [] p = "w" -> W(f) = 1 /\ D(f) = 1 /\ (prv = 1 /\ U(f) = 1 => sum = 1)

(* ---- the walk ---- *)

\* address bits below a page of the given level
PageMask(rv, level) ==
  CASE level = 0 -> <<4095, 0, 0, 0>>
    [] level = 1 -> IF rv = 32 THEN <<65535, 63, 0, 0>> ELSE <<65535, 31, 0, 0>>
    [] level = 2 -> <<65535, 16383, 0, 0>>

Vpn(rv, va, level) == IF rv = 32 THEN Shr(va, 12 + 10 * level)[1] % 1024
                      ELSE Shr(va, 12 + 9 * level)[1] % 512

PtePpn(rv, pte) == LET w == Shr(pte, 10) IN IF rv = 32 THEN w ELSE <<w[1], w[2], w[3] % 4096, 0>>

SatpPpn(s) == LET w == Raw(s, SATP) IN IF s.rv = 32 THEN <<w[1], w[2] % 64, 0, 0>>
                                       ELSE <<w[1], w[2], w[3] % 4096, 0>>
PagingOn(s) == LET w == Raw(s, SATP) IN IF s.rv = 32 THEN w[2] \div 32768 = 1 ELSE w[4] \div 4096 = 8

Canonical(va) == \/ va[4] = 0 /\ va[3] < 64
                 \/ va[4] = 65535 /\ va[3] >= 65472

OkPa(pa) == [ok |-> TRUE, pa |-> pa, cause |-> 0]
Fail(c)  == [ok |-> FALSE, pa |-> Zero, cause |-> c]

RECURSIVE Walk(_, _, _, _, _, _)
Walk(s, p, prv, va, ppn, level) ==
  LET size == IF s.rv = 32 THEN 4 ELSE 8
      at   == AddI(Shl(ppn, 12), Vpn(s.rv, va, level) * size)
  IN IF ~InDram(s, at) THEN Fail(AccessFault(p))
     ELSE LET pte == DramLoad(s, at, size)
              f   == pte[1] % 256
              st  == Raw(s, MSTATUS)
              base == Shl(PtePpn(s.rv, pte), 12)
          IN IF ~ValidPte(f) THEN Fail(PageFault(p))
             ELSE IF ~LeafPte(f)
             THEN IF level = 0 THEN Fail(PageFault(p))
                  ELSE Walk(s, p, prv, va, PtePpn(s.rv, pte), level - 1)
             ELSE IF ~LeafAllows(f, p, prv, Bit(st, 18), Bit(st, 19)) THEN Fail(PageFault(p))
             ELSE IF WAnd(base, PageMask(s.rv, level)) # Zero THEN Fail(PageFault(p))
             ELSE OkPa(WOr(base, WAnd(va, PageMask(s.rv, level))))

MapVa(s, p, prv, va) ==
  IF prv = 3 \/ ~PagingOn(s) THEN OkPa(va)
  ELSE IF s.rv = 64 /\ ~Canonical(va) THEN Fail(PageFault(p))
  ELSE Walk(s, p, prv, va, SatpPpn(s), IF s.rv = 32 THEN 1 ELSE 2)

(* ---- physical memory protection ---- *)

\* configuration byte of entry i in 0..15
PmpCfg(s, i) ==
  LET w == IF s.rv = 32 THEN Raw(s, PMPCFG0 + i \div 4) ELSE Raw(s, PMPCFG0 + (i \div 8) * 2)
      k == IF s.rv = 32 THEN i % 4 ELSE i % 8
  IN (w[(k \div 2) + 1] \div (IF k % 2 = 0 THEN 1 ELSE 256)) % 256

PmpA(c) == (c \div 8) % 4
PmpLocked(c) == c \div 128 = 1
PmpAddr(s, i) == Raw(s, PMPADDR0 + i)

PmpActive(s) == \E i \in 0..15 : PmpA(PmpCfg(s, i)) # 0

RECURSIVE LowOnes(_, _)
LowOnes(w, i) == IF i = 64 \/ Bit(w, i) = 0 THEN i ELSE LowOnes(w, i + 1)

\* does entry i match word address wa (= physical address / 4)?
PmpMatches(s, i, c, wa) ==
  CASE PmpA(c) = 0 -> FALSE
    [] PmpA(c) = 1 -> /\ i > 0 => Leu(PmpAddr(s, i - 1), wa)
                      /\ Ltu(wa, PmpAddr(s, i))
    [] PmpA(c) = 2 -> wa = PmpAddr(s, i)
    [] PmpA(c) = 3 -> LET n == LowOnes(PmpAddr(s, i), 0) + 1
                      IN n >= 64 \/ Shr(wa, n) = Shr(PmpAddr(s, i), n)

PmpPerm(c, p) == CASE p = "r" -> c % 2 = 1 [] p = "w" -> (c \div 2) % 2 = 1 [] p = "x" -> (c \div 4) % 2 = 1

RECURSIVE PmpFrom(_, _, _, _, _)
PmpFrom(s, p, prv, wa, i) ==
  IF i > 15 THEN prv = 3
  ELSE LET c == PmpCfg(s, i)
       IN IF PmpMatches(s, i, c, wa)
          THEN (prv = 3 /\ ~PmpLocked(c)) \/ PmpPerm(c, p)
          ELSE PmpFrom(s, p, prv, wa, i + 1)

PmpUnused(s) == \A a \in PMPCFG0..(PMPCFG0 + 3) : a \notin DOMAIN s.csr
PmpAllows(s, p, prv, pa) == PmpUnused(s) \/ ~PmpActive(s) \/ PmpFrom(s, p, prv, Shr(pa, 2), 0)

(* ---- everything ---- *)

\* privilege that loads and stores are checked with
DataPrv(s) == IF Bit(Raw(s, MSTATUS), 17) = 1 THEN MPP(s) ELSE s.prv

Translate(s, p, va0, size) ==
  LET va  == Norm(s.rv, va0)
      prv == IF p = "x" THEN s.prv ELSE DataPrv(s)
  IN IF Triggered(s, p, va) THEN Fail(BREAKPOINT)
     ELSE LET m == MapVa(s, p, prv, va)
          IN IF ~m.ok THEN m
             ELSE IF ~PmpAllows(s, p, prv, m.pa) THEN Fail(AccessFault(p))
             ELSE IF va[1] % size # 0 THEN Fail(Misaligned(p))
             ELSE m
=============================================================================
