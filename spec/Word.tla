-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 64-bit machine words for TLC, whose integers have 32 bits.              *)
(*                                                                         *)
(* A word is a tuple of four limbs of LB bits, least significant first;    *)
(* LB is 16 in the machine model.  MCWord checks every operator against    *)
(* plain integer arithmetic, exhaustively, for LB = 2 (8-bit words).       *)
(* "Half" is the lower two limbs: the 32-bit half of a 64-bit word.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

CONSTANT LB                       \* bits per limb (even)

B    == 2^LB                      \* limb base
HB   == 2^(LB \div 2)             \* half-limb base
BITS == 4 * LB                    \* bits per word
HALF == 2 * LB                    \* bits per half word

Zero == <<0, 0, 0, 0>>
One  == <<1, 0, 0, 0>>
Ones == <<B - 1, B - 1, B - 1, B - 1>>

IsZero(a) == a = Zero

(* ---- conversions ---- *)

\* a small non-negative or negative integer, sign extended
FromInt(i) ==
  LET l1 == i % B        q1 == i \div B     \* \div floors
      l2 == q1 % B       q2 == q1 \div B
      l3 == q2 % B       q3 == q2 \div B
  IN <<l1, l2, l3, q3 % B>>

\* the low limbs as a small integer (only for words known to be small)
Low31(a) == a[1] + B * a[2]

(* ---- bits ---- *)

Bit(a, i) == (a[(i \div LB) + 1] \div 2^(i % LB)) % 2

PutBit(a, i, v) ==
  LET k == (i \div LB) + 1
      p == 2^(i % LB)
  IN [a EXCEPT ![k] = @ + (v - ((@ \div p) % 2)) * p]

\* n-bit field starting at bit i, within one limb
Field(a, i, n) == (a[(i \div LB) + 1] \div 2^(i % LB)) % 2^n

Sign(a)   == a[4] \div (B \div 2)
SignH(a)  == a[2] \div (B \div 2)

OrL(x, y)  == x + y - (x & y)
XorL(x, y) == x + y - 2 * (x & y)

WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b)  == <<OrL(a[1], b[1]), OrL(a[2], b[2]), OrL(a[3], b[3]), OrL(a[4], b[4])>>
WXor(a, b) == <<XorL(a[1], b[1]), XorL(a[2], b[2]), XorL(a[3], b[3]), XorL(a[4], b[4])>>
WNot(a)    == <<B - 1 - a[1], B - 1 - a[2], B - 1 - a[3], B - 1 - a[4]>>
WAndNot(a, b) == WAnd(a, WNot(b))

(* replace the bits of a selected by mask m by those of b *)
Merge(a, m, b) == WOr(WAndNot(a, m), WAnd(b, m))

(* ---- extension of the half word ---- *)

ZExtH(a) == <<a[1], a[2], 0, 0>>
SExtH(a) == LET e == SignH(a) * (B - 1) IN <<a[1], a[2], e, e>>

(* ---- addition ---- *)

AddC(a, b, c) ==
  LET s1 == a[1] + b[1] + c
      s2 == a[2] + b[2] + (s1 \div B)
      s3 == a[3] + b[3] + (s2 \div B)
      s4 == a[4] + b[4] + (s3 \div B)
  IN <<s1 % B, s2 % B, s3 % B, s4 % B>>

Add(a, b)  == AddC(a, b, 0)
Sub(a, b)  == AddC(a, WNot(b), 1)
Neg(a)     == AddC(Zero, WNot(a), 1)
AddI(a, i) == Add(a, FromInt(i))

(* ---- comparison ---- *)

Ltu(a, b) ==
  \/ a[4] < b[4]
  \/ /\ a[4] = b[4]
     /\ \/ a[3] < b[3]
        \/ /\ a[3] = b[3]
           /\ \/ a[2] < b[2]
              \/ a[2] = b[2] /\ a[1] < b[1]

Flip(a)   == <<a[1], a[2], a[3], (a[4] + B \div 2) % B>>
Lts(a, b) == Ltu(Flip(a), Flip(b))
Leu(a, b) == ~Ltu(b, a)

(* ---- shifts, 0 <= n < BITS ---- *)

Shl(a, n) ==
  LET q == n \div LB
      r == n % LB
      L(i) == IF i - q < 1 THEN 0 ELSE a[i - q]
      S(i) == IF r = 0 THEN L(i)
              ELSE (L(i) % 2^(LB - r)) * 2^r + L(i - 1) \div 2^(LB - r)
  IN <<S(1), S(2), S(3), S(4)>>

ShrFill(a, n, f) ==
  LET q == n \div LB
      r == n % LB
      L(i) == IF i + q > 4 THEN f ELSE a[i + q]
      S(i) == IF r = 0 THEN L(i)
              ELSE L(i) \div 2^r + (L(i + 1) % 2^r) * 2^(LB - r)
  IN <<S(1), S(2), S(3), S(4)>>

Shr(a, n) == ShrFill(a, n, 0)
Sar(a, n) == ShrFill(a, n, Sign(a) * (B - 1))

ShlH(a, n) == ZExtH(Shl(a, n))
ShrH(a, n) == Shr(ZExtH(a), n)
SarH(a, n) == ZExtH(Sar(SExtH(a), n))

(* ---- multiplication: <<low word, high word>> of the unsigned product ---- *)

MulFull(a, b) ==
  LET A == [i \in 0..7 |-> IF i % 2 = 0 THEN a[i \div 2 + 1] % HB ELSE a[i \div 2 + 1] \div HB]
      C == [i \in 0..7 |-> IF i % 2 = 0 THEN b[i \div 2 + 1] % HB ELSE b[i \div 2 + 1] \div HB]
      T(i, c) == IF i < 0 \/ i > 7 \/ c - i < 0 \/ c - i > 7 THEN 0 ELSE A[i] * C[c - i]
      Col(c) == T(0,c) + T(1,c) + T(2,c) + T(3,c) + T(4,c) + T(5,c) + T(6,c) + T(7,c)
      \* two half-limb columns make one limb column
      P[k \in 0..8] ==            \* <<limb k, carry out>>
        IF k = 0 THEN <<0, 0>>
        ELSE LET lo == Col(2*(k-1)) + P[k-1][2]
                 hi == Col(2*(k-1) + 1) + lo \div HB
             IN <<(lo % HB) + HB * (hi % HB), hi \div HB>>
  IN << <<P[1][1], P[2][1], P[3][1], P[4][1]>>, <<P[5][1], P[6][1], P[7][1], P[8][1]>> >>

Mul(a, b)    == MulFull(a, b)[1]
MulHU(a, b)  == MulFull(a, b)[2]
MulH(a, b)   == Sub(Sub(MulHU(a, b), IF Sign(a) = 1 THEN b ELSE Zero),
                    IF Sign(b) = 1 THEN a ELSE Zero)
MulHSU(a, b) == Sub(MulHU(a, b), IF Sign(a) = 1 THEN b ELSE Zero)

(* ---- division: restoring, one bit at a time ---- *)

RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, d, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET top == Sign(r)
           r2 == LET s == Shl(r, 1) IN [s EXCEPT ![1] = @ + Bit(a, i)]
       IN IF top = 1 \/ Leu(d, r2)
          THEN DivStep(a, d, i - 1, PutBit(q, i, 1), Sub(r2, d))
          ELSE DivStep(a, d, i - 1, q, r2)

\* index of the most significant one bit, -1 for zero
TopBit(a) ==
  LET k == IF a[4] # 0 THEN 4 ELSE IF a[3] # 0 THEN 3 ELSE IF a[2] # 0 THEN 2 ELSE 1
  IN IF a = Zero THEN -1
     ELSE (k - 1) * LB + (CHOOSE i \in 0..(LB - 1) : 2^i <= a[k] /\ a[k] < 2^(i + 1))

DivRemU(a, d) == DivStep(a, d, TopBit(a), Zero, Zero)     \* d # Zero

Abs(a) == IF Sign(a) = 1 THEN Neg(a) ELSE a

DivU(a, d) == IF IsZero(d) THEN Ones ELSE DivRemU(a, d)[1]
RemU(a, d) == IF IsZero(d) THEN a ELSE DivRemU(a, d)[2]
DivS(a, d) ==
  IF IsZero(d) THEN Ones
  ELSE LET q == DivRemU(Abs(a), Abs(d))[1]
       IN IF Sign(a) # Sign(d) THEN Neg(q) ELSE q
RemS(a, d) ==
  IF IsZero(d) THEN a
  ELSE LET r == DivRemU(Abs(a), Abs(d))[2]
       IN IF Sign(a) = 1 THEN Neg(r) ELSE r
=============================================================================
