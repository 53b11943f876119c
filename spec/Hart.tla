---------------------------------- MODULE Hart ----------------------------------
(***************************************************************************)
(* The hart: interrupts, traps, execution of one instruction.              *)
(***************************************************************************)
EXTENDS Mmu

(* ---------------------------------------------------------------------- *)
(* traps                                                                  *)
(* ---------------------------------------------------------------------- *)

CauseWord(rv, cause, int) == IF int THEN PutBit(FromInt(cause), rv - 1, 1) ELSE FromInt(cause)

\* does a trap taken now go to S-mode?
Delegated(s, cause, int) ==
  s.prv < 3 /\ Bit(Raw(s, IF int THEN MIDELEG ELSE MEDELEG), cause) = 1

Vector(rv, tvec, cause, int) ==
  Norm(rv, AddI(<<(tvec[1] \div 4) * 4, tvec[2], tvec[3], tvec[4]>>,
                IF tvec[1] % 4 = 1 /\ int THEN 4 * cause ELSE 0))

TakeTrap(s, cause, int, tval) ==
  LET toS == Delegated(s, cause, int)
      st  == Raw(s, MSTATUS)
      st2 == IF toS
             THEN PutBit(PutBit(PutBit(st, 5, Bit(st, 1)), 1, 0), 8, s.prv % 2)
             ELSE PutBit(PutBit(PutBit(PutBit(st, 7, Bit(st, 3)), 3, 0), 11, s.prv % 2), 12, s.prv \div 2)
      s1 == PutRaw(s, MSTATUS, st2)
      s2 == PutRaw(s1, IF toS THEN SCAUSE ELSE MCAUSE, CauseWord(s.rv, cause, int))
      s3 == PutRaw(s2, IF toS THEN SEPC ELSE MEPC, Norm(s.rv, s.pc))
      s4 == PutRaw(s3, IF toS THEN STVAL ELSE MTVAL, Norm(s.rv, tval))
  IN [s4 EXCEPT !.prv = IF toS THEN 1 ELSE 3,
                !.pc  = Vector(s.rv, Raw(s, IF toS THEN STVEC ELSE MTVEC), cause, int)]

(* ---------------------------------------------------------------------- *)
(* interrupts                                                             *)
(* ---------------------------------------------------------------------- *)

SSI == 1  MSI == 3  STI == 5  MTI == 7  SEI == 9  MEI == 11
IntOrder == <<MEI, MSI, MTI, SEI, SSI, STI>>

TimerUp(s) == Leu(ClintDW(s.clint, MTIMECMP), ClintDW(s.clint, MTIME))

\* the pending bits the devices drive, as of now
RefreshMip(s) ==
  LET t == IF TimerUp(s) THEN 1 ELSE 0
      m0 == Raw(s, MIP)
      m1 == PutBit(PutBit(m0, MTI, t), STI, t)
      m2 == IF 1 \in s.plic.mask THEN PutBit(m1, MEI, IF 1 \in s.plic.val THEN 1 ELSE 0) ELSE m1
      m3 == IF 2 \in s.plic.mask THEN PutBit(m2, SEI, IF 2 \in s.plic.val THEN 1 ELSE 0) ELSE m2
  IN IF m3 = m0 THEN s ELSE PutRaw(s, MIP, m3)

\* the interrupt to take, 0 if none
Interrupt(s) ==
  LET pend == WAnd(Raw(s, MIP), Raw(s, MIE))[1]
      dl   == Raw(s, MIDELEG)
      st   == Raw(s, MSTATUS)
      P(i) == (pend \div 2^i) % 2 = 1
      toM(i) == P(i) /\ Bit(dl, i) = 0 /\ (s.prv < 3 \/ Bit(st, 3) = 1)
      toS(i) == P(i) /\ Bit(dl, i) = 1 /\ (s.prv = 0 \/ (s.prv = 1 /\ Bit(st, 1) = 1))
      First(T(_)) == IF \E k \in 1..6 : T(IntOrder[k])
                     THEN IntOrder[CHOOSE k \in 1..6 : T(IntOrder[k]) /\ \A j \in 1..(k - 1) : ~T(IntOrder[j])]
                     ELSE 0
  IN IF pend = 0 THEN 0
     ELSE IF First(toM) # 0 THEN First(toM) ELSE First(toS)

\* taking an interrupt clears its pending bit
TakeInterrupt(s, i) ==
  LET s1 == PutRaw(s, MIP, PutBit(Raw(s, MIP), i, 0))
      s2 == CASE i = MEI -> [s1 EXCEPT !.plic = Plic!Taken(@, 1)]
              [] i = SEI -> [s1 EXCEPT !.plic = Plic!Taken(@, 2)]
              [] OTHER -> s1
  IN TakeTrap(s2, i, TRUE, Zero)

(* ---------------------------------------------------------------------- *)
(* execution                                                              *)
(* ---------------------------------------------------------------------- *)

\* outcome of an instruction: a new state, or an exception in the old one
Done(s) == [ok |-> TRUE, s |-> s, cause |-> 0, tval |-> Zero]
Exc(s, cause, tval) == [ok |-> FALSE, s |-> s, cause |-> cause, tval |-> tval]

Extend(rv, size, signed, v) ==
  IF ~signed THEN v
  ELSE CASE size = 1 -> FromInt(Sx(v[1] % 256, 8))
         [] size = 2 -> FromInt(Sx(v[1], 16))
         [] size = 4 -> SExtH(v)
         [] OTHER -> v

Next4(s, len) == Norm(s.rv, AddI(s.pc, len))
Goto(s, a) == [s EXCEPT !.pc = Norm(s.rv, a)]
Cont(s, len) == Done(Goto(s, AddI(s.pc, len)))

ExecLoad(s, o, len) ==
  LET va == Norm(s.rv, Add(X(s, o.a), o.imm))
      t  == Translate(s, "r", va, o.f)
  IN IF ~t.ok THEN Exc(s, t.cause, va)
     ELSE LET r == PLoad(s, t.pa, o.f)
          IN IF ~r.ok THEN Exc(s, AccessFault("r"), va)
             ELSE Cont(SetX(r.s, o.rd, Extend(s.rv, o.f, o.w, r.v)), len)

ExecStore(s, o, len) ==
  LET va == Norm(s.rv, Add(X(s, o.a), o.imm))
      t  == Translate(s, "w", va, o.f)
  IN IF ~t.ok THEN Exc(s, t.cause, va)
     ELSE LET r == PStore(s, t.pa, o.f, X(s, o.b))
          IN IF ~r.ok THEN Exc(s, AccessFault("w"), va) ELSE Cont(r.s, len)

ExecAmo(s, o, len) ==
  LET size == IF o.w THEN 4 ELSE 8
      va == X(s, o.a)
      t  == Translate(s, "w", va, size)
  IN IF ~t.ok THEN Exc(s, t.cause, va)
     ELSE LET r == PLoad(s, t.pa, size)
          IN IF ~r.ok THEN Exc(s, AccessFault("w"), va)
             ELSE LET old == Extend(s.rv, size, TRUE, r.v)
                      q == PStore(r.s, t.pa, size, AmoVal(o.f, o.w, old, X(s, o.b)))
                  IN IF ~q.ok THEN Exc(r.s, AccessFault("w"), va)
                     ELSE Cont(SetX(q.s, o.rd, old), len)

ExecLr(s, o, len) ==
  LET va == X(s, o.a)
      t  == Translate(s, "r", va, o.f)
  IN IF ~t.ok THEN Exc(s, t.cause, va)
     ELSE LET r == PLoad(s, t.pa, o.f)
          IN IF ~r.ok THEN Exc(s, AccessFault("r"), va)
             ELSE Cont([SetX(r.s, o.rd, Extend(s.rv, o.f, TRUE, r.v)) EXCEPT !.resv = t.pa], len)

ExecSc(s, o, len) ==
  LET va == X(s, o.a)
      t  == Translate(s, "w", va, o.f)
  IN IF ~t.ok THEN Exc(s, t.cause, va)
     ELSE IF s.resv # t.pa THEN Cont([SetX(s, o.rd, One) EXCEPT !.resv = <<>>], len)
     ELSE LET r == PStore(s, t.pa, o.f, X(s, o.b))
          IN IF ~r.ok THEN Exc(s, AccessFault("w"), va)
             ELSE Cont([SetX(r.s, o.rd, Zero) EXCEPT !.resv = <<>>], len)

ExecCsr(s, o, len, bits) ==
  LET write == o.f = "w" \/ o.a # 0
      src == IF o.w THEN o.imm ELSE X(s, o.a)
      old == ReadCsr(s, o.b)
      s1  == SetX(s, o.rd, old)
  IN IF CsrIllegal(s, o.b, write) THEN Exc(s, 2, bits)
     ELSE Cont(CASE o.f = "w" -> WriteCsr(s1, o.b, src)
                [] o.f = "s" -> IF write THEN SetCsr(s1, o.b, src) ELSE s1
                [] o.f = "c" -> IF write THEN ClrCsr(s1, o.b, src) ELSE s1, len)

Tsr(s) == Bit(Raw(s, MSTATUS), 22)
Tvm(s) == Bit(Raw(s, MSTATUS), 20)

Sret(s) ==
  LET st == Raw(s, MSTATUS)
  IN [PutRaw(s, MSTATUS, PutBit(PutBit(PutBit(st, 1, Bit(st, 5)), 5, 1), 8, 0))
      EXCEPT !.pc = ReadCsr(s, SEPC), !.prv = Bit(st, 8)]

Mret(s) ==
  LET st == Raw(s, MSTATUS)
  IN [PutRaw(s, MSTATUS, PutBit(PutBit(PutBit(PutBit(st, 3, Bit(st, 7)), 7, 1), 11, 0), 12, 0))
      EXCEPT !.pc = ReadCsr(s, MEPC), !.prv = MPP(s)]

\* o: decoded instruction, len: its length, bits: the instruction word
Exec(s, o, len, bits) ==
  LET a == X(s, o.a)
      b == X(s, o.b)
      k == o.k
  IN CASE k = "illegal" -> Exc(s, 2, bits)
       [] k = "alu"    -> Cont(SetX(s, o.rd, Alu(s.rv, o.f, o.w, a, b)), len)
       [] k = "alui"   -> Cont(SetX(s, o.rd, Alu(s.rv, o.f, o.w, a, o.imm)), len)
       [] k = "mul"    -> Cont(SetX(s, o.rd, MulDiv(s.rv, o.f, o.w, a, b)), len)
       [] k = "lui"    -> Cont(SetX(s, o.rd, o.imm), len)
       [] k = "auipc"  -> Cont(SetX(s, o.rd, Add(s.pc, o.imm)), len)
       [] k = "jal"    -> Done(Goto(SetX(s, o.rd, AddI(s.pc, len)), Add(s.pc, o.imm)))
       [] k = "jalr"   -> Done(Goto(SetX(s, o.rd, AddI(s.pc, len)), PutBit(Add(a, o.imm), 0, 0)))
       [] k = "branch" -> IF Taken(s.rv, o.f, a, b) THEN Done(Goto(s, Add(s.pc, o.imm))) ELSE Cont(s, len)
       [] k = "load"   -> ExecLoad(s, o, len)
       [] k = "store"  -> ExecStore(s, o, len)
       [] k = "amo"    -> ExecAmo(s, o, len)
       [] k = "lr"     -> ExecLr(s, o, len)
       [] k = "sc"     -> ExecSc(s, o, len)
       [] k = "fence"  -> Cont(s, len)
       [] k = "wfi"    -> Cont(s, len)
       [] k = "csr"    -> ExecCsr(s, o, len, bits)
       [] k = "ecall"  -> Exc(s, 8 + s.prv, Zero)
       [] k = "ebreak" -> Exc(s, BREAKPOINT, s.pc)
       [] k = "sfence" -> IF s.prv = 0 \/ (s.prv = 1 /\ Tvm(s) = 1) THEN Exc(s, 2, bits) ELSE Cont(s, len)
       [] k = "sret"   -> IF s.prv = 0 \/ (s.prv = 1 /\ Tsr(s) = 1) THEN Exc(s, 2, bits) ELSE Done(Sret(s))
       [] k = "mret"   -> IF s.prv < 3 THEN Exc(s, 2, bits) ELSE Done(Mret(s))

\* one 16-bit parcel at va: [ok, h, cause, tval]
FetchParcel(s, va) ==
  LET t == Translate(s, "x", va, 1)
  IN IF ~t.ok THEN [ok |-> FALSE, h |-> 0, cause |-> t.cause, tval |-> va]
     ELSE LET f == PFetch(s, t.pa)
          IN [ok |-> f.ok, h |-> f.h, cause |-> AccessFault("x"), tval |-> va]

\* fetch, decode, execute
Instruction(s) ==
  LET p1 == FetchParcel(s, s.pc)
  IN IF ~p1.ok THEN Exc(s, p1.cause, p1.tval)
     ELSE IF p1.h % 4 # 3 THEN Exec(s, Decode16(s.rv, p1.h), 2, <<p1.h, 0, 0, 0>>)
     ELSE LET p2 == FetchParcel(s, Next4(s, 2))
          IN IF ~p2.ok THEN Exc(s, p2.cause, p2.tval)
             ELSE Exec(s, Decode32(s.rv, p1.h, p2.h), 4, <<p1.h, p2.h, 0, 0>>)

(* ---------------------------------------------------------------------- *)
(* one turn of the hart                                                   *)
(* ---------------------------------------------------------------------- *)

\* an interrupt or one instruction, without the batch boundary
OneCycle(s0) ==
  LET s == RefreshMip(s0)
      i == Interrupt(s)
  IN IF i # 0 THEN TakeInterrupt(s, i)
     ELSE LET r == Instruction(s)
          IN IF r.ok THEN r.s ELSE TakeTrap(r.s, r.cause, FALSE, r.tval)

=============================================================================
