--------------------------------- MODULE System ---------------------------------
(***************************************************************************)
(* The whole emulator: the loop around the hart, the passage of time, the  *)
(* host interface, and the state in which it starts.                       *)
(***************************************************************************)
EXTENDS Fesvr

LOCAL INSTANCE SequencesExt

\* end of a batch: reservation dropped, time advances, UART polls the console
Boundary(s) ==
  LET r == Uart!Tick(s.uart, s.inq)
      t == [s EXCEPT !.resv = <<>>,
                     !.clint = PutDW(@, MTIME, AddI(ClintDW(@, MTIME), TICKS)),
                     !.uart = r.u, !.inq = r.inq, !.plic = Line(@, r.line)]
  IN PutRaw(t, TIME, AddI(Raw(s, TIME), TICKS))

Step(s0) ==
  LET s == TLCEval(HostTurn(TLCEval(OneCycle([s0 EXCEPT !.wr = {}, !.out = <<>>]))))
  IN IF s.cnt + 1 = BATCH THEN [Boundary(s) EXCEPT !.cnt = 0] ELSE [s EXCEPT !.cnt = @ + 1]

Boundaries(s, n) == FoldLeft(LAMBDA t, k : Boundary(t), s, [k \in 1..n |-> k])

(* n iterations of an instruction that jumps to itself and is not interrupted *)
Spin(s0, n) ==
  LET s1 == Boundaries([s0 EXCEPT !.wr = {}, !.out = <<>>], (s0.cnt + n - 1) \div BATCH)
      s2 == Step([s1 EXCEPT !.cnt = (s0.cnt + n - 1) % BATCH])
  IN s2

\* waiting at an instruction that jumps to itself
Idle(s) == /\ s.prv = 3 /\ InDram(s, s.pc)
           /\ DramLoad(s, s.pc, 4) = <<111, 0, 0, 0>>
           /\ OneCycle(s).pc = s.pc

(* n steps of the program by itself (a wait up to the end of the batch counts as one), or fewer if it exits; *)
(* log is all that appeared on the console                                                                *)
RECURSIVE RunOn(_, _)
RunOn(s, n) ==
  IF n = 0 \/ s.host.exit >= 0 THEN s
  ELSE LET t == IF Idle(s) THEN Spin(s, BATCH - s.cnt) ELSE Step(s)
       IN RunOn(TLCEval(IF t.out = <<>> THEN t ELSE [t EXCEPT !.log = @ \o t.out]), n - 1)

Reset(c) ==
  [rv |-> c.rv, cf |-> c, pc |-> Norm(c.rv, c.pc), prv |-> 3, x |-> [i \in 1..31 |-> Zero],
   csr |-> InitCsr(c.rv),
   trig |-> [sel |-> 0, d1 |-> [i \in 1..8 |-> Zero], d2 |-> [i \in 1..8 |-> Zero]],
   resv |-> <<>>, mem |-> c.image, wr |-> {},
   clint |-> (MTIME :> Zero) @@ (MTIMECMP :> Zero),
   plic |-> Plic!Init0, uart |-> Uart!Init0, inq |-> <<>>, out |-> <<>>, cnt |-> 0,
   host |-> NoHost, log |-> <<>>]
=============================================================================
