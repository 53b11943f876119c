---------------------------------- MODULE MCDriver ----------------------------------
(***************************************************************************)
(* A program that receives from the console by interrupt, run by the       *)
(* specification instruction by instruction, while input arrives and the   *)
(* UART polls at any moment: nothing is lost, doubled or reordered, and    *)
(* everything is received in the end.                                      *)
(*                                                                         *)
(* The program waits at 0x80000000; its handler is at 0x80000100           *)
(* (spec/MCDriver.json), in M-mode or, delegated, in S-mode.               *)
(***************************************************************************)
EXTENDS System, Json, IOUtils
CONSTANTS RV, CTX,        \* context 1 or 2
          MOST            \* bytes that arrive
VARIABLES s, given
vars == <<s, given>>

Code == JsonDeserialize("MCDriver.json")
Handler == IF CTX = 1 THEN Code["m"] ELSE Code["s"]
BUFAT == 4096
Loc(o) == <<o, 32768, 0, 0>>

Plic0 == Plic!SetEnable(Plic!SetPriority(Plic!Init0, 1, 1), CTX, {1})
Start == [rv |-> RV, cf |-> [base |-> Loc(0), htif |-> FALSE, rom |-> <<>>], pc |-> Loc(0), prv |-> IF CTX = 1 THEN 3 ELSE 1,
          x |-> [i \in 1..31 |-> CASE i = 10 -> <<4 + 4096 * (CTX - 1), 3104, 0, 0>> [] i = 11 -> <<0, 4096, 0, 0>>
                                   [] i = 12 -> Loc(BUFAT) [] OTHER -> Zero],
          csr |-> (MSTATUS :> <<10, 0, IF RV = 64 THEN 10 ELSE 0, 0>>) @@ (MIE :> <<2560, 0, 0, 0>>) @@ (MISA :> <<4357, 20, 0, 32768>>)
                  @@ (MIDELEG :> IF CTX = 1 THEN Zero ELSE <<512, 0, 0, 0>>) @@ (MTVEC :> Loc(256)) @@ (STVEC :> Loc(256)),
          trig |-> [sel |-> 0, d1 |-> [i \in 1..8 |-> Zero], d2 |-> [i \in 1..8 |-> Zero]],
          resv |-> <<>>, mem |-> PutHalves(PutHalves(<<>>, 0, <<111, 0>>), 128, Handler), wr |-> {},
          clint |-> (MTIME :> Zero) @@ (MTIMECMP :> <<1, 1, 1, 1>>),
          plic |-> Plic0, uart |-> Uart!Write(Uart!Init0, 1, 1).u, inq |-> <<>>, out |-> <<>>, cnt |-> 0]

Init == s = Start /\ given = 0

Run == s' = [OneCycle(s) EXCEPT !.wr = {}] /\ UNCHANGED given
Poll == LET r == Uart!Tick(s.uart, s.inq)
        IN s' = [s EXCEPT !.uart = r.u, !.inq = r.inq, !.plic = Line(@, r.line)] /\ UNCHANGED given
Arrive == \E n \in 1..2 : /\ given + n <= MOST /\ Len(s.inq) < 2
                          /\ s' = [s EXCEPT !.inq = Append(@, [i \in 1..n |-> given + i])]
                          /\ given' = given + n
Next == Run \/ Poll \/ Arrive
Spec == Init /\ [][Next]_vars /\ WF_vars(Run) /\ WF_vars(Poll)

Off == s.pc[1]
InHandler == Off >= 256
Count == s.x[12][1] - BUFAT
Byte(k) == DramLoad(s, Loc(BUFAT + k), 1)[1]
Received == [i \in 1..Count |-> Byte(i - 1)]
\* the byte between the receiver register and the buffer
Flight == IF Off \in {280, 284} THEN <<s.x[7][1]>> ELSE <<>>
RECURSIVE Joined(_)
Joined(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs) \o Joined(Tail(cs))

\* nothing lost, doubled or reordered
Order == Received \o Flight \o s.uart.q \o Joined(s.inq) = [i \in 1..given |-> i]
\* the program is where it is thought to be
Sane == /\ Off \in {0} \cup {256 + 4 * i : i \in 0..11}
        /\ s.pc[2] = 32768 /\ s.prv = (IF CTX = 1 THEN 3 ELSE 1)
        /\ (Raw(s, IF CTX = 1 THEN MCAUSE ELSE SCAUSE) # Zero => Raw(s, IF CTX = 1 THEN MCAUSE ELSE SCAUSE)[1] = IF CTX = 1 THEN MEI ELSE SEI)
\* outside the handler, received data always asks for attention
Asks == ~InHandler /\ s.uart.q # <<>> => Interrupt(RefreshMip(s)) = IF CTX = 1 THEN MEI ELSE SEI
\* and an empty receiver does not
Quiet == ~InHandler /\ s.uart.q = <<>> => Interrupt(RefreshMip(s)) = 0
\* everything arrives, and then the program waits
Delivered == <>[](given = MOST => Count = MOST /\ ~InHandler)
View == <<given, s.pc, s.x, s.mem, s.csr, s.plic, s.uart, s.inq>>
=============================================================================
