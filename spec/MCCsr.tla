---------------------------------- MODULE MCCsr ----------------------------------
(***************************************************************************)
(* The CSR file: pairs of writes of patterned values to the registers that *)
(* have views, restrictions or read-only fields.                           *)
(***************************************************************************)
EXTENDS Csr
CONSTANTS RV
VARIABLES s, last
vars == <<s, last>>

H(n) == FromInt(n)
Pats == {Zero, <<65535, 65535, 65535, 65535>>, <<43690, 43690, 43690, 43690>>, <<21845, 21845, 21845, 21845>>,
         <<4660, 22136, 39612, 57072>>, <<6144, 0, 0, 0>>, <<4096, 0, 0, 0>>, <<2048, 0, 0, 0>>, <<2, 0, 0, 0>>, <<1, 0, 0, 0>>,
         <<0, 0, 5, 32768>>, <<1, 0, 0, 36864>>, <<0, 32768, 0, 0>>}

Regs == {USTATUS, SSTATUS, MSTATUS, SIE, MIE, SIP, MIP, SEPC, MEPC, SATP, MISA, STVEC, TSELECT, TDATA1, TDATA2, MHPMCOUNTER3}
Ops == {"w", "s", "c"}

Do(t, a, op, v) == CASE op = "w" -> WriteCsr(t, a, v) [] op = "s" -> SetCsr(t, a, v) [] op = "c" -> ClrCsr(t, a, v)

S0 == [rv |-> RV, pc |-> <<0, 32768, 0, 0>>, csr |-> InitCsr(RV),
       trig |-> [sel |-> 0, d1 |-> [i \in 1..8 |-> Zero], d2 |-> [i \in 1..8 |-> Zero]]]

None == [a |-> -1, op |-> "", v |-> Zero, old |-> S0, n |-> 0]
Init == s = S0 /\ last = None
Act(a, op, v) == /\ last.n < 2
                 /\ s' = Do(s, a, op, v)
                 /\ last' = [a |-> a, op |-> op, v |-> v, old |-> s, n |-> last.n + 1]
Next == \E a \in Regs, op \in Ops, v \in Pats : (last.n = 1 => v # Zero) /\ Act(a, op, v)

On(P) == last.a >= 0 => P
Old == last.old

\* registers that share storage
Family(a) == CASE a \in {USTATUS, SSTATUS, MSTATUS} -> {USTATUS, SSTATUS, MSTATUS}
               [] a \in {SIE, MIE} -> {SIE, MIE}
               [] a \in {SIP, MIP} -> {SIP, MIP}
               [] a = MISA -> {MISA, SEPC, MEPC}              \* IALIGN
               [] a \in {TSELECT, TDATA1, TDATA2} -> {TSELECT, TDATA1, TDATA2}
               [] OTHER -> {a}
Alone == On(\A b \in (Regs \cup {768, 384, 833}) \ Family(last.a) : ReadCsr(s, b) = ReadCsr(Old, b))

\* a view shows bits of the register behind it and changes no others
MaskOf(a) == CASE a = USTATUS -> UMask [] a = SSTATUS -> SMask(RV) [] OTHER -> SIMask
Behind(a) == CASE a \in {USTATUS, SSTATUS} -> MSTATUS [] a = SIE -> MIE [] OTHER -> MIP
ViewShows == \A a \in {USTATUS, SSTATUS, SIE, SIP} : ReadCsr(s, a) = Norm(RV, WAnd(ReadCsr(s, Behind(a)), MaskOf(a)))
ViewKeeps == On(last.a \in {USTATUS, SSTATUS, SIE, SIP} =>
                  WAndNot(Raw(s, Behind(last.a)), MaskOf(last.a)) = WAndNot(Raw(Old, Behind(last.a)), MaskOf(last.a)))

\* legal values
MppLegal == MPP(s) # 2
XlenFixed == RV = 64 => Raw(s, MSTATUS)[3] % 16 = 10
SatpLegal == RV = 64 => Raw(s, SATP)[4] \div 4096 \in {0, 8}
EpcEven == ReadCsr(s, SEPC)[1] % 2 = 0 /\ ReadCsr(s, MEPC)[1] % 2 = 0
SelectLegal == LET t == ReadCsr(s, TSELECT) IN t[1] < 8 /\ t[2] = 0 /\ ReadCsr(s, TDATA1) = Norm(RV, s.trig.d1[s.trig.sel + 1])
Narrow == RV = 32 => \A b \in Regs : ReadCsr(s, b)[3] = 0 /\ ReadCsr(s, b)[4] = 0
CounterFixed == ReadCsr(s, MHPMCOUNTER3) = Zero

\* set never clears and clear never sets, and neither touches bits that are not named
SetClear == On(last.a \notin {SATP, TSELECT, MHPMCOUNTER3, MSTATUS, SSTATUS} =>
  LET old == ReadCsr(Old, last.a)
      new == ReadCsr(s, last.a)
  IN /\ last.op = "s" => WAndNot(old, new) = Zero /\ WAndNot(new, WOr(old, Norm(RV, last.v))) = Zero
     /\ last.op = "c" => WAndNot(new, old) = Zero /\ WAndNot(WAndNot(old, new), Norm(RV, last.v)) = Zero)
\* plain storage keeps what is written
Stored == On(last.a \in {STVEC, MIE, MIP} /\ last.op = "w" => ReadCsr(s, last.a) = Norm(RV, last.v))
=============================================================================
