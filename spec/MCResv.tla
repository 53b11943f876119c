---------------------------------- MODULE MCResv ----------------------------------
(***************************************************************************)
(* Load-reserved and store-conditional against the books a programmer      *)
(* keeps: an SC succeeds exactly if the latest LR, with no SC and no batch *)
(* boundary since, was of the same address.                                *)
(***************************************************************************)
EXTENDS System
VARIABLES s, hold, last
vars == <<s, hold, last>>

Addrs == 1..3                       \* 0x80001000, +4, +8; x10 holds it
Where(a) == <<4096 + 4 * (a - 1), 32768, 0, 0>>
Val(t, a) == DramLoad(t, Where(a), 4)

S0 == [rv |-> 64, cf |-> [base |-> <<0, 32768, 0, 0>>], pc |-> <<0, 32768, 0, 0>>, prv |-> 3,
       x |-> [i \in 1..31 |-> Zero], csr |-> (MISA :> Zero), trig |-> [sel |-> 0, d1 |-> [i \in 1..8 |-> Zero], d2 |-> [i \in 1..8 |-> Zero]],
       resv |-> <<>>, mem |-> <<>>, wr |-> {}, clint |-> (MTIME :> Zero) @@ (MTIMECMP :> <<1, 1, 1, 1>>),
       plic |-> Plic!Init0, uart |-> Uart!Init0, inq |-> <<>>, out |-> <<>>, cnt |-> 0]

Init == s = S0 /\ hold = 0 /\ last = [k |-> "", a |-> 0, v |-> 0, old |-> S0, hold |-> 0]

Ins(t, k, a, v) ==
  LET u == [SetX(SetX(t, 10, Where(a)), 11, FromInt(v)) EXCEPT !.wr = {}]
      o == [k |-> k, f |-> IF k \in {"lr", "sc", "store"} THEN 4 ELSE "swap", w |-> TRUE, a |-> 10, b |-> 11, rd |-> 12, imm |-> Zero]
  IN [Exec(u, o, 4, Zero).s EXCEPT !.pc = S0.pc, !.wr = {}]

Now(k, a, v) ==
  /\ s' = CASE k \in {"lr", "sc", "store", "amo"} -> Ins(s, k, a, v)
            [] k = "trap" -> [TakeTrap(s, 2, FALSE, Zero) EXCEPT !.pc = S0.pc, !.csr = S0.csr]
            [] k = "boundary" -> [Boundary(s) EXCEPT !.csr = S0.csr, !.clint = S0.clint, !.uart.bk = 0]
  /\ hold' = CASE k = "lr" -> a [] k \in {"sc", "boundary"} -> 0 [] OTHER -> hold
  /\ last' = [k |-> k, a |-> a, v |-> v, old |-> [s EXCEPT !.x[12] = Zero], hold |-> hold]

Next == \E k \in {"lr", "sc", "store", "amo", "trap", "boundary"} :
          IF k \in {"trap", "boundary"} THEN Now(k, 1, 0)
          ELSE \E a \in Addrs : IF k = "lr" THEN Now(k, a, 0) ELSE \E v \in 1..2 : Now(k, a, v)

View == <<s.mem, s.resv, hold, last.k, last.a, last.v, last.hold, Val(last.old, 1), Val(last.old, 2), Val(last.old, 3), s.x[12]>>

Success == last.k = "sc" => (s.x[12] = Zero <=> last.hold = last.a)
Stored == \A a \in Addrs :
  Val(s, a) = IF last.a = a /\ (last.k \in {"store", "amo"} \/ (last.k = "sc" /\ last.hold = a))
              THEN FromInt(last.v) ELSE Val(last.old, a)
Loaded == last.k \in {"lr", "amo"} => s.x[12] = Val(last.old, last.a)
OneTry == last.k = "sc" => s.resv = <<>>
Kept == (s.resv = <<>>) <=> (hold = 0)
=============================================================================
