------------------------------- MODULE MCWord -------------------------------
(***************************************************************************)
(* Exhaustive check of Word against plain integer arithmetic with 2-bit    *)
(* limbs: every pair of 8-bit words and every operator.                    *)
(***************************************************************************)
EXTENDS Word, TLC
VARIABLES a, b
vars == <<a, b>>

N   == 2^BITS
NH  == 2^HALF
W(x)  == FromInt(x)
V(w)  == w[1] + B*w[2] + B*B*w[3] + B*B*B*w[4]
Sg(x) == IF x >= N \div 2 THEN x - N ELSE x
SgH(x) == LET h == x % NH IN IF h >= NH \div 2 THEN h - NH ELSE h
Init == a \in 0..(N-1) /\ b = 0
Next == b < N - 1 /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_vars

abs(x) == IF x < 0 THEN -x ELSE x
\* C-like truncated division
TDiv(x, y) == LET q == abs(x) \div abs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
TRem(x, y) == x - y * TDiv(x, y)
M(x) == x % N

BitsOK ==
  /\ \A i \in 0..(BITS-1) : Bit(W(a), i) = (a \div 2^i) % 2
  /\ \A i \in 0..(BITS-1), v \in 0..1 :
        V(PutBit(W(a), i, v)) = a + (v - ((a \div 2^i) % 2)) * 2^i
  /\ \A i \in 0..(BITS-1) : LET bt(x) == (x \div 2^i) % 2 IN
       /\ Bit(WAnd(W(a), W(b)), i) = bt(a) * bt(b)
       /\ Bit(WOr(W(a), W(b)), i) = IF bt(a) + bt(b) > 0 THEN 1 ELSE 0
       /\ Bit(WXor(W(a), W(b)), i) = (bt(a) + bt(b)) % 2
       /\ Bit(WNot(W(a)), i) = 1 - bt(a)
Conv ==
  /\ V(W(a)) = a
  /\ V(W(a - N)) = a
  /\ V(ZExtH(W(a))) = a % NH
  /\ V(SExtH(W(a))) = M(SgH(a))
AddOK ==
  /\ V(Add(W(a), W(b))) = M(a + b)
  /\ V(Sub(W(a), W(b))) = M(a - b)
  /\ V(Neg(W(a))) = M(-a)
CmpOK ==
  /\ Ltu(W(a), W(b)) <=> a < b
  /\ Lts(W(a), W(b)) <=> Sg(a) < Sg(b)
  /\ Leu(W(a), W(b)) <=> a <= b
ShiftOK == LET n == b % BITS  m == b % HALF IN
  /\ V(Shl(W(a), n)) = M(a * 2^n)
  /\ V(Shr(W(a), n)) = a \div 2^n
  /\ V(Sar(W(a), n)) = M(Sg(a) \div 2^n)
  /\ V(ShlH(W(a), m)) = (a * 2^m) % NH
  /\ V(ShrH(W(a), m)) = (a % NH) \div 2^m
  /\ V(SarH(W(a), m)) = (SgH(a) \div 2^m) % NH
MulOK ==
  /\ V(Mul(W(a), W(b))) = M(a * b)
  /\ V(MulHU(W(a), W(b))) = (a * b) \div N
  /\ V(MulH(W(a), W(b))) = M((Sg(a) * Sg(b)) \div N)
  /\ V(MulHSU(W(a), W(b))) = M((Sg(a) * b) \div N)
DivOK ==
  /\ V(DivU(W(a), W(b))) = IF b = 0 THEN N - 1 ELSE a \div b
  /\ V(RemU(W(a), W(b))) = IF b = 0 THEN a ELSE a % b
  /\ V(DivS(W(a), W(b))) = IF b = 0 THEN N - 1 ELSE M(TDiv(Sg(a), Sg(b)))
  /\ V(RemS(W(a), W(b))) = IF b = 0 THEN a ELSE M(TRem(Sg(a), Sg(b)))
  /\ TopBit(W(a)) = IF a = 0 THEN -1 ELSE CHOOSE i \in 0..(BITS-1) : 2^i <= a /\ a < 2^(i+1)
=============================================================================
