---------------------------------- MODULE MCPte ----------------------------------
(***************************************************************************)
(* Page permissions: every combination of the eight flag bits of a PTE,    *)
(* access, mode, SUM and MXR, against the rules as software states them.   *)
(***************************************************************************)
EXTENDS Mmu
VARIABLES f, c
vars == <<f, c>>

Cases == [p : {"x", "r", "w"}, prv : {0, 1}, sum : 0..1, mxr : 0..1]
None == [p |-> "", prv |-> 0, sum |-> 0, mxr |-> 0]

Init == f \in 0..255 /\ c = None
Next == c = None /\ c' \in Cases /\ UNCHANGED f

Has(k) == (f \div 2^k) % 2 = 1
Leaf == ValidPte(f) /\ LeafPte(f)
\* what the walk concludes from a leaf
Ok(q) == Leaf /\ LeafAllows(f, q.p, q.prv, q.sum, q.mxr)

On(P) == c # None => P

Rules == On(Ok(c) =>
  /\ Has(0) /\ Has(6)                                     \* valid, and accessed: never set by hardware
  /\ ~(Has(2) /\ ~Has(1))                                 \* the reserved encodings
  /\ c.prv = 0 => Has(4)                                  \* users only see user pages
  /\ c.prv = 1 /\ Has(4) => c.sum = 1 /\ c.p # "x"        \* the supervisor sees them if it says so, and never runs them
  /\ c.p = "x" => Has(3)
  /\ c.p = "w" => Has(2) /\ Has(7)
  /\ c.p = "r" => Has(1) \/ (c.mxr = 1 /\ Has(3)))
\* and it is allowed when nothing is against it
Complete == On(~Ok(c) =>
  \/ ~Has(0) \/ (Has(2) /\ ~Has(1)) \/ ~(Has(1) \/ Has(3)) \/ ~Has(6)
  \/ c.prv = 0 /\ ~Has(4)
  \/ c.prv = 1 /\ Has(4) /\ (c.sum = 0 \/ c.p = "x")
  \/ c.p = "x" /\ ~Has(3)
  \/ c.p = "w" /\ ~(Has(2) /\ Has(7))
  \/ c.p = "r" /\ ~Has(1) /\ ~(Has(3) /\ c.mxr = 1))
\* SUM and MXR only ever allow more, and only to loads and stores
Grow == On(Ok(c) => Ok([c EXCEPT !.sum = 1]) /\ Ok([c EXCEPT !.mxr = 1]))
FetchBlind == On(c.p = "x" => \A a \in 0..1, b \in 0..1 : Ok([c EXCEPT !.sum = a, !.mxr = b]) = Ok(c))
MxrLoads == On(c.p = "w" => Ok([c EXCEPT !.mxr = 1]) = Ok([c EXCEPT !.mxr = 0]))
\* G never matters
Global == On(Ok(c) = (Leaf /\ LeafAllows(IF Has(5) THEN f - 32 ELSE f + 32, c.p, c.prv, c.sum, c.mxr)))
=============================================================================
