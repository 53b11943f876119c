---------------------------------- MODULE MCWalk ----------------------------------
(***************************************************************************)
(* Address translation: one leaf at any level of the table, with page      *)
(* numbers and addresses of many patterns, against arithmetic on the whole *)
(* address.  Tables are at fixed pages; entry is the table index.          *)
(***************************************************************************)
EXTENDS Mmu
CONSTANTS RV
VARIABLES level, va, ppn, probe
vars == <<level, va, ppn, probe>>

TopLevel == IF RV = 32 THEN 1 ELSE 2
Bits == IF RV = 32 THEN 10 ELSE 9
Size == IF RV = 32 THEN 4 ELSE 8
Table(l) == <<4096 * (4 - l), 32768, 0, 0>>            \* 0x80002000 for level 2, ...
Page(a) == Shr(a, 12)

\* virtual addresses, as words before they are made canonical
Vas == {Zero, <<4095, 0, 0, 0>>, <<4660, 22136, 26, 0>>, <<65535, 65535, 31, 0>>, <<0, 64, 0, 0>>, <<43690, 43690, 42, 0>>,
        <<21845, 21845, 21, 0>>, <<8, 32, 1, 0>>, <<65528, 65535, 63, 0>>, <<0, 0, 32, 0>>}
Canon(a) == IF RV = 32 THEN <<a[1], a[2], 0, 0>>
            ELSE IF a[3] % 64 >= 32 THEN <<a[1], a[2], (a[3] % 64) + 65472, 65535>> ELSE a
Ppns == {<<8, 8, 0, 0>>, <<0, 8, 0, 0>>, <<512, 8, 0, 0>>, <<1024, 8, 0, 0>>, <<0, 12, 0, 0>>, <<65535, 63, 0, 0>>, <<1, 8, 0, 0>>, <<256, 8, 0, 0>>}
\* what is looked up: bits of the address flipped
Probes == {-1, 0, 2, 11} \cup {12, 20, 21, 22, 29, 30, 31, 38, 39, 40, 63}

Init == level \in 0..TopLevel /\ va \in {Canon(a) : a \in Vas} /\ ppn = Zero /\ probe = -2
Next == probe = -2 /\ ppn' \in Ppns /\ probe' \in {p \in Probes : p < RV} /\ UNCHANGED <<level, va>>

Index(l) == IF RV = 32 THEN Shr(va, 12 + 10 * l)[1] % 1024 ELSE Shr(va, 12 + 9 * l)[1] % 512
Pte(p, flags) == WOr(Shl(p, 10), FromInt(flags))
Flags == 207                                              \* D A X W R V
Put(m, l, w) == PutHalves(m, (4096 * (4 - l) + Index(l) * Size) \div 2, IF RV = 32 THEN <<w[1], w[2]>> ELSE w)
RECURSIVE Chain(_, _)
Chain(m, l) == IF l = level THEN Put(m, l, Pte(ppn, Flags)) ELSE Chain(Put(m, l, Pte(Page(Table(l - 1)), 1)), l - 1)

S == [rv |-> RV, cf |-> [base |-> <<0, 32768, 0, 0>>], prv |-> 1, mem |-> Chain(<<>>, TopLevel),
      csr |-> (SATP :> WOr(Page(Table(TopLevel)), IF RV = 32 THEN <<0, 32768, 0, 0>> ELSE <<0, 0, 0, 32768>>))]

At == IF probe < 0 THEN va ELSE PutBit(va, probe, 1 - Bit(va, probe))
Out == MapVa(S, "r", 1, At)
On(P) == probe # -2 => P

Low == 12 + Bits * level                                  \* address bits below the leaf
Aligned == WAnd(ppn, FromInt(2^(Bits * level) - 1)) = Zero
InLeaf == probe < Low                                     \* the probe is in the same page
SignOk == RV = 32 \/ Canon(At) = At

Right == On(
  CASE ~SignOk -> Out = Fail(13)
    [] SignOk /\ InLeaf /\ Aligned -> Out = OkPa(Add(Shl(ppn, 12), Sub(At, Shl(Shr(At, Low), Low))))
    [] SignOk /\ InLeaf /\ ~Aligned -> Out = Fail(13)
    [] OTHER -> Out = Fail(13))                           \* another entry of a table: not valid
\* the offset in the page is kept; M-mode and Bare do not translate
Offset == On(Out.ok => Out.pa[1] % 4096 = At[1] % 4096)
Identity == On(MapVa(S, "r", 3, At) = OkPa(At) /\ MapVa([S EXCEPT !.csr = <<>>], "r", 1, At) = OkPa(At))
\* no permission at the leaf, no translation
Denied == On(~MapVa(S, "r", 0, At).ok)
=============================================================================
