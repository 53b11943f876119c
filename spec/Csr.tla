---------------------------------- MODULE Csr ----------------------------------
(***************************************************************************)
(* The CSR file: storage, restricted views, legal values, access rules.    *)
(***************************************************************************)
EXTENDS Machine, TLC

USTATUS == 0       SSTATUS == 256    SIE == 260       STVEC == 261
SCOUNTEREN == 262  SEPC == 321       SCAUSE == 322    STVAL == 323
SIP == 324         STIMECMP == 333   SATP == 384
MSTATUS == 768     MISA == 769       MEDELEG == 770   MIDELEG == 771
MIE == 772         MTVEC == 773      MCOUNTEREN == 774
MEPC == 833        MCAUSE == 834     MTVAL == 835     MIP == 836
PMPCFG0 == 928     PMPADDR0 == 944
TSELECT == 1952    TDATA1 == 1953    TDATA2 == 1954
MHPMCOUNTER3 == 2819
CYCLE == 3072      TIME == 3073      MARCHID == 3858

Raw(s, a) == IF a \in DOMAIN s.csr THEN s.csr[a] ELSE Zero
PutRaw(s, a, v) ==
  [s EXCEPT !.csr = IF a \in DOMAIN @ THEN [@ EXCEPT ![a] = v]
                    ELSE IF v = Zero THEN @
                    ELSE LET f == @ IN [b \in DOMAIN f \cup {a} |-> IF b = a THEN v ELSE f[b]]]

UMask  == <<17, 0, 0, 0>>                                    \* 0x11
SMask(rv) == IF rv = 32 THEN <<57651, 32781, 0, 0>>          \* 0x800de133
             ELSE <<57651, 13, 3, 32768>>                    \* 0x80000003000de133
\* what a write of sstatus can change: UXL is read-only
SWMask(rv) == IF rv = 32 THEN SMask(32) ELSE <<57651, 13, 0, 32768>>
SIMask == <<819, 0, 0, 0>>                                   \* 0x333

\* addresses that read as a view of something else
Views == {USTATUS, SSTATUS, SIE, SIP, SEPC, MEPC}

ReadCsr(s, a) ==
  LET v == CASE a = USTATUS -> WAnd(Raw(s, MSTATUS), UMask)
             [] a = SSTATUS -> WAnd(Raw(s, MSTATUS), SMask(s.rv))
             [] a = SIE -> WAnd(Raw(s, MIE), SIMask)
             [] a = SIP -> WAnd(Raw(s, MIP), SIMask)
             [] a \in {SEPC, MEPC} ->
                  IF Bit(Raw(s, MISA), 2) = 1 THEN PutBit(Raw(s, a), 0, 0)
                  ELSE PutBit(PutBit(Raw(s, a), 0, 0), 1, 0)
             [] OTHER -> Raw(s, a)
  IN Norm(s.rv, v)

MPP(s) == Field(Raw(s, MSTATUS), 11, 2)

WriteMstatus(s, v) ==
  LET w == IF s.rv = 64 THEN <<v[1], v[2], ((v[3] \div 16) * 16) + 10, v[4]>> ELSE v
      m == MPP(s)
  IN PutRaw(s, MSTATUS,
            IF Field(w, 11, 2) = 2 THEN PutBit(PutBit(w, 11, m % 2), 12, m \div 2) ELSE w)

\* triggers: tdata1/tdata2 show the slot selected by tselect
Select(s, i) ==
  PutRaw(PutRaw(PutRaw([s EXCEPT !.trig.sel = i], TSELECT, FromInt(i)),
                TDATA1, s.trig.d1[i + 1]), TDATA2, s.trig.d2[i + 1])

WriteCsr(s, a, v0) ==
  LET v == Norm(s.rv, v0)
      View(b, m) == PutRaw(s, b, Merge(Raw(s, b), m, v))
  IN CASE a = USTATUS -> View(MSTATUS, UMask)
       [] a = SSTATUS -> View(MSTATUS, SWMask(s.rv))
       [] a = SIE -> View(MIE, SIMask)
       [] a = SIP -> View(MIP, SIMask)
       [] a = MISA -> PutRaw(s, MISA, IF s.pc[1] % 4 # 0 THEN PutBit(v, 2, Bit(Raw(s, MISA), 2)) ELSE v)
       [] a = MSTATUS -> WriteMstatus(s, v)
       [] a = SATP -> IF s.rv = 32 \/ v[4] \div 4096 \in {0, 8} THEN PutRaw(s, SATP, v) ELSE s
       [] a = MHPMCOUNTER3 -> s
       [] a = TSELECT -> IF v[4] = 0 /\ v[3] = 0 /\ v[2] = 0 /\ v[1] < 8 THEN Select(s, v[1]) ELSE s
       [] a = TDATA1 -> PutRaw([s EXCEPT !.trig.d1[s.trig.sel + 1] = v], TDATA1, v)
       [] a = TDATA2 -> PutRaw([s EXCEPT !.trig.d2[s.trig.sel + 1] = v], TDATA2, v)
       [] OTHER -> PutRaw(s, a, v)

\* what set and clear modify: the raw value, or what a view shows of it
Base(s, a) == IF a \in {SEPC, MEPC} THEN Raw(s, a) ELSE ReadCsr(s, a)
SetCsr(s, a, m) == WriteCsr(s, a, WOr(Base(s, a), Norm(s.rv, m)))
ClrCsr(s, a, m) == WriteCsr(s, a, WAndNot(Base(s, a), Norm(s.rv, m)))

(* ---- who may access what ---- *)

NoSuchCsr(a) == a = 780 \/ a \in 960..1023 \/ a \in 3456..3519 \/ a \in 3968..4031

CsrIllegal(s, a, write) ==
  LET lvl == (a \div 256) % 4
      counter == a \in 3072..3103
      i == a - 3072
  IN \/ s.prv < lvl
     \/ NoSuchCsr(a)
     \/ counter /\ s.prv < 3 /\ Bit(Raw(s, MCOUNTEREN), i) = 0
     \/ counter /\ s.prv = 0 /\ Bit(Raw(s, SCOUNTEREN), i) = 0
     \/ a = CYCLE /\ s.prv < 3
     \/ a = STIMECMP /\ s.prv # 1
     \/ a = SATP /\ s.prv = 1 /\ Bit(Raw(s, MSTATUS), 20) = 1
     \/ write /\ a \div 1024 = 3

InitCsr(rv) ==
  IF rv = 32 THEN (MISA :> <<4357, 16404, 0, 0>>) @@ (MARCHID :> FromInt(5))
  ELSE (MISA :> <<4357, 20, 0, 32768>>) @@ (MARCHID :> FromInt(5)) @@ (MSTATUS :> <<0, 0, 10, 0>>)
=============================================================================
