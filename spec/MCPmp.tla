---------------------------------- MODULE MCPmp ----------------------------------
(***************************************************************************)
(* Physical memory protection as sets of addresses: entries are intervals  *)
(* of words, the lowest entry an address lies in decides.  Every setting   *)
(* of two neighbouring entries (number FIRST and the next) with addresses  *)
(* below TOP words.                                                        *)
(***************************************************************************)
EXTENDS Mmu
CONSTANTS RV, FIRST, TOP, PERMS
VARIABLES e, g, below
vars == <<e, g, below>>

Entry == [a : 0..3, l : 0..1, perm : PERMS, at : 0..(TOP - 1)]
None == [a |-> 0, l |-> 0, perm |-> 0, at |-> 0]

\* below: the address register of the entry before (its other fields are zero)
Init == e \in Entry /\ g = None /\ below \in (IF FIRST = 0 THEN {0} ELSE {0, 2, 5})
Next == g = None /\ g' \in {x \in Entry : x.perm \in {1, 6}} /\ UNCHANGED <<e, below>>

Byte(x) == x.l * 128 + x.a * 8 + x.perm
PerReg == IF RV = 32 THEN 4 ELSE 8
CfgReg(i) == PMPCFG0 + (IF RV = 32 THEN i \div 4 ELSE 2 * (i \div 8))
CfgWord(i, b) == Shl(FromInt(b), 8 * (i % PerReg))

S == LET z == [rv |-> RV, csr |-> (PMPADDR0 + FIRST :> FromInt(e.at)) @@ (PMPADDR0 + FIRST + 1 :> FromInt(g.at))]
         z1 == IF FIRST = 0 THEN z ELSE PutRaw(z, PMPADDR0 + FIRST - 1, FromInt(below))
         z2 == PutRaw(z1, CfgReg(FIRST), CfgWord(FIRST, Byte(e)))
     IN PutRaw(z2, CfgReg(FIRST + 1), WOr(Raw(z2, CfgReg(FIRST + 1)), CfgWord(FIRST + 1, Byte(g))))

\* the words an entry covers
RECURSIVE Tail1(_)
Tail1(n) == IF n % 2 = 1 THEN 1 + Tail1(n \div 2) ELSE 0
Area(x, prev) ==
  CASE x.a = 0 -> {}
    [] x.a = 1 -> {w \in 0..(2 * TOP) : prev <= w /\ w < x.at}
    [] x.a = 2 -> {x.at}
    [] x.a = 3 -> LET n == 2^(Tail1(x.at) + 1) IN {w \in 0..(2 * TOP) : w \div n = x.at \div n}

Lets(x, p, prv) == (prv = 3 /\ x.l = 0) \/ (x.perm \div (CASE p = "r" -> 1 [] p = "w" -> 2 [] p = "x" -> 4)) % 2 = 1

Want(p, prv, w) ==
  IF e.a = 0 /\ g.a = 0 THEN TRUE                               \* no entry is in use
  ELSE IF w \in Area(e, below) THEN Lets(e, p, prv)
  ELSE IF w \in Area(g, e.at) THEN Lets(g, p, prv)
  ELSE prv = 3

PmpRight == \A p \in {"r", "w", "x"}, prv \in {0, 3}, w \in 0..(TOP + 1) :
              PmpAllows(S, p, prv, FromInt(4 * w)) = Want(p, prv, w)
\* the two lowest bits of an address do not matter
WordGrain == \A w \in {0, 3, TOP} : PmpAllows(S, "r", 0, FromInt(4 * w)) = PmpAllows(S, "r", 0, FromInt(4 * w + 3))
\* S and U are treated alike
Equal == \A w \in {0, 2, 5} : PmpAllows(S, "w", 0, FromInt(4 * w)) = PmpAllows(S, "w", 1, FromInt(4 * w))
=============================================================================
