--------------------------------- MODULE MCTrap ---------------------------------
(***************************************************************************)
(* Traps, trap returns and interrupt selection, for every mode, every      *)
(* setting of the mstatus stacks, every delegation and every set of        *)
(* pending and enabled interrupts, against the rules of the privileged     *)
(* architecture as stated for software.                                    *)
(***************************************************************************)
EXTENDS Hart
CONSTANTS RV
VARIABLES prv, bits, pend, dele, cause
vars == <<prv, bits, pend, dele, cause>>

Ints == {MEI, MSI, MTI, SEI, SSI, STI}

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + Sum(S \ {x})
Set(S) == FromInt(Sum({2^i : i \in S}))

\* all other bits of mstatus are set (or, for odd causes, some are clear), to see that they are kept
Rest == <<58961, (IF cause % 2 = 1 THEN 2 ELSE 126) + (IF RV = 32 THEN 32768 ELSE 0),
          IF RV = 64 THEN 10 ELSE 0, IF RV = 64 THEN 32768 ELSE 0>>
Mst(b) == WOr(Rest, FromInt(b.mie * 8 + b.sie * 2 + b.mpie * 128 + b.spie * 32 + b.mpp * 2048 + b.spp * 256))
Others(w) == WAndNot(w, FromInt(8 + 2 + 128 + 32 + 6144 + 256))

S0 == [rv |-> RV, pc |-> <<4660, 32768, 0, 0>>, prv |-> prv, resv |-> <<>>,
       csr |-> (MSTATUS :> Mst(bits)) @@ (MISA :> <<4357, 20, 0, 32768>>) @@ (MIP :> Set(pend)) @@ (MIE :> Set(Ints))
               @@ (MIDELEG :> Set(dele \cap Ints)) @@ (MEDELEG :> Set(dele)) @@ (MTVEC :> <<257, 32769, 0, 0>>)
               @@ (STVEC :> <<513, 32770, 0, 0>>) @@ (SATP :> Zero),
       plic |-> Plic!Init0]

Bits == [mie : 0..1, sie : 0..1, mpie : 0..1, spie : 0..1, mpp : {0, 1, 3}, spp : 0..1]

\* every set of pending and delegated interrupts
InitInt == /\ prv \in {0, 1, 3}
           /\ bits \in {b \in Bits : b.mpie = 0 /\ b.spie = 0 /\ b.mpp = 0 /\ b.spp = 0}
           /\ pend = {} /\ dele \in SUBSET Ints /\ cause = -1
NextInt == /\ cause = -1 /\ cause' = 2 /\ pend' \in SUBSET Ints /\ UNCHANGED <<prv, bits, dele>>
\* every setting of the stacks and every cause
InitTrap == /\ prv \in {0, 1, 3}
            /\ bits \in Bits
            /\ pend = {} /\ dele = {} /\ cause = -1
NextTrap == /\ cause = -1 /\ cause' \in (0..13) \cup {15}
            /\ dele' \in {{}, {cause'}, (0..15) \ {cause'}, 0..15}
            /\ UNCHANGED <<prv, bits, pend>>

(* ---- interrupts ---- *)

Chosen == Interrupt(S0)
Targets(i) == IF i \in dele THEN 1 ELSE 3
\* does the hart accept interrupts of that target now?
Accepts(t) == prv < t \/ (prv = t /\ (IF t = 3 THEN bits.mie ELSE bits.sie) = 1)
Eligible == {i \in pend \cap Ints : Accepts(Targets(i))}
Rank(i) == CASE i = MEI -> 1 [] i = MSI -> 2 [] i = MTI -> 3 [] i = SEI -> 4 [] i = SSI -> 5 [] i = STI -> 6

InterruptRight == cause >= 0 =>
  IF Eligible = {} THEN Chosen = 0
  ELSE /\ Chosen \in Eligible
       /\ \A i \in Eligible : \/ Targets(i) < Targets(Chosen)
                              \/ Targets(i) = Targets(Chosen) /\ Rank(i) >= Rank(Chosen)
MachineNeverWaits ==    \* below M-mode, a pending interrupt that is not delegated is always taken
  cause >= 0 /\ prv < 3 /\ (pend \cap Ints) \ dele # {} => Chosen # 0
TakenIsWithdrawn == cause >= 0 /\ Chosen # 0 => LET t == TakeInterrupt(S0, Chosen) IN
  /\ Bit(Raw(t, MIP), Chosen) = 0
  /\ \A j \in Ints \ {Chosen} : Bit(Raw(t, MIP), j) = Bit(Raw(S0, MIP), j)
  \* and the handler is not itself interrupted by anything of its own level
  /\ Interrupt(t) = 0 \/ Targets(Interrupt(t)) > t.prv

(* ---- traps ---- *)

TrapOk(int) ==
  LET T == TakeTrap(S0, cause, int, <<48, 57, 0, 0>>)
      st == Raw(T, MSTATUS)
      toS == prv < 3 /\ cause \in dele
  IN /\ T.prv = IF toS THEN 1 ELSE 3
     /\ T.prv >= prv                                        \* never to a lower mode
     /\ Others(st) = Others(Mst(bits))                      \* nothing else changes
     /\ IF toS
        THEN /\ Bit(st, 1) = 0 /\ Bit(st, 5) = bits.sie /\ Bit(st, 8) = prv
             /\ Bit(st, 3) = bits.mie /\ Bit(st, 7) = bits.mpie /\ Field(st, 11, 2) = bits.mpp
             /\ Raw(T, SEPC) = S0.pc /\ Raw(T, MEPC) = Zero /\ Raw(T, MCAUSE) = Zero
             /\ Raw(T, SCAUSE)[1] = cause /\ Bit(Raw(T, SCAUSE), RV - 1) = (IF int THEN 1 ELSE 0)
             /\ Raw(T, STVAL) = <<48, 57, 0, 0>> /\ Raw(T, MTVAL) = Zero
             /\ T.pc = Norm(RV, AddI(<<512, 32770, 0, 0>>, IF int THEN 4 * cause ELSE 0))
        ELSE /\ Bit(st, 3) = 0 /\ Bit(st, 7) = bits.mie /\ Field(st, 11, 2) = prv
             /\ Bit(st, 1) = bits.sie /\ Bit(st, 5) = bits.spie /\ Bit(st, 8) = bits.spp
             /\ Raw(T, MEPC) = S0.pc /\ Raw(T, SEPC) = Zero /\ Raw(T, SCAUSE) = Zero
             /\ Raw(T, MCAUSE)[1] = cause /\ Bit(Raw(T, MCAUSE), RV - 1) = (IF int THEN 1 ELSE 0)
             /\ Raw(T, MTVAL) = <<48, 57, 0, 0>> /\ Raw(T, STVAL) = Zero
             /\ T.pc = Norm(RV, AddI(<<256, 32769, 0, 0>>, IF int THEN 4 * cause ELSE 0))
     \* what a handler that changes nothing returns to: where and as it was
     /\ LET RT == IF toS THEN Sret(T) ELSE Mret(T)
            su == Raw(RT, MSTATUS)
        IN /\ RT.prv = prv /\ RT.pc = S0.pc
           /\ Others(su) = Others(Mst(bits))
           /\ IF toS THEN Bit(su, 1) = bits.sie /\ Bit(su, 3) = bits.mie /\ Bit(su, 5) = 1 /\ Bit(su, 8) = 0
              ELSE Bit(su, 3) = bits.mie /\ Bit(su, 1) = bits.sie /\ Bit(su, 7) = 1 /\ Field(su, 11, 2) = 0
     \* interrupts of the level the handler runs at are off
     /\ ~(T.prv = 3 /\ Bit(st, 3) = 1) /\ ~(T.prv = 1 /\ Bit(st, 1) = 1)

ExceptionRight == cause >= 0 => TrapOk(FALSE)
InterruptTrapRight == cause >= 0 /\ cause \in Ints => TrapOk(TRUE)

(* ---- returns ---- *)

\* the mode only ever goes to the one recorded, and never up
ReturnRight == cause >= 0 =>
  /\ LET RT == Mret([S0 EXCEPT !.prv = 3]) IN RT.prv = bits.mpp /\ Field(Raw(RT, MSTATUS), 11, 2) = 0
                                              /\ Bit(Raw(RT, MSTATUS), 3) = bits.mpie /\ Bit(Raw(RT, MSTATUS), 7) = 1
  /\ LET RT == Sret([S0 EXCEPT !.prv = 1]) IN RT.prv = bits.spp /\ RT.prv <= 1 /\ Bit(Raw(RT, MSTATUS), 8) = 0
                                              /\ Bit(Raw(RT, MSTATUS), 1) = bits.spie /\ Bit(Raw(RT, MSTATUS), 5) = 1
\* and the instructions are refused where they are not allowed
ReturnGuard == cause >= 0 =>
  LET can(k) == Exec(S0, [k |-> k, a |-> 0, b |-> 0, rd |-> 0, f |-> 0, w |-> FALSE, imm |-> Zero], 4, Zero).ok
  IN /\ can("mret") <=> prv = 3
     /\ can("sret") <=> prv = 3 \/ (prv = 1 /\ Bit(Mst(bits), 22) = 0)
     /\ can("sfence") <=> prv = 3 \/ (prv = 1 /\ Bit(Mst(bits), 20) = 0)
=============================================================================
