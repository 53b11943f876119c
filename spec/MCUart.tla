--------------------------------- MODULE MCUart ---------------------------------
(***************************************************************************)
(* The UART by itself, exhaustively, with a short queue and few values.    *)
(*                                                                         *)
(* u     the UART            inq   console input not yet taken             *)
(* line  its interrupt line  sent  what the latest action transmitted      *)
(* want  history: bytes accepted and not yet read or cleared, in order     *)
(*                                                                         *)
(* RAW: the driver also writes the line status register (plain storage in  *)
(* this emulator), for the graph only.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS QSIZE, BACKOFF, BYTES, RAW
EMIT == "EMIT" \in DOMAIN IOEnv

VARIABLES u, inq, line, want
vars == <<u, inq, line, want>>

Uart == INSTANCE Uart
Has(v, b) == Uart!Has(v, b)

Init == u = Uart!Init0 /\ inq = <<>> /\ line = FALSE /\ want = <<>>

Chunks == {<<b>> : b \in BYTES} \cup {<<b, c>> : b \in BYTES, c \in BYTES}

Acts == {<<"read", r, 0>> : r \in 0..5}
        \cup {<<"write", 0, b>> : b \in BYTES}
        \cup {<<"write", 1, v>> : v \in 0..3}
        \cup {<<"write", 2, v>> : v \in {0, 1, 2, 4, 6}}
        \cup {<<"write", 3, v>> : v \in {0, 128}}
        \cup {<<"write", 4, v>> : v \in {8, 24}}
        \cup (IF RAW THEN {<<"write", 5, v>> : v \in {0, 96, 97, 112}} ELSE {})
        \cup {<<"in", c, 0>> : c \in Chunks}
        \cup {<<"tick", 0, 0>>}

Polls(t) == Has(t.iir, 1) /\ ~Uart!Loop(t) /\ Len(t.q) < QSIZE

\* in the graph, input is taken at once
Able(t, a) == a[1] = "in" => IF EMIT THEN Polls(t) ELSE inq = <<>>

\* [u, inq, line, tx]
Do(t, i, a) ==
  LET Of(r) == [u |-> r.u, inq |-> i, line |-> r.line, tx |-> r.tx]
  IN CASE a[1] = "read" -> Of(Uart!Read(t, a[2]))
       [] a[1] = "write" -> Of(Uart!Write(t, a[2], a[3]))
       [] a[1] = "tick" -> LET r == Uart!Tick(t, i) IN [u |-> r.u, inq |-> r.inq, line |-> r.line, tx |-> <<>>]
       [] a[1] = "in" -> IF EMIT
                         THEN LET r == Uart!Tick([t EXCEPT !.bk = 0], <<a[2]>>) IN [u |-> r.u, inq |-> i, line |-> r.line, tx |-> <<>>]
                         ELSE [u |-> t, inq |-> Append(i, a[2]), line |-> "", tx |-> <<>>]

\* what the driver expects to be able to read, by its own books
WantAfter(t, i, w, a) ==
  CASE a[1] = "read" /\ a[2] = 0 /\ ~Uart!Dlab(t) /\ w # <<>> -> Tail(w)
    [] a[1] = "write" /\ a[2] = 0 /\ ~Uart!Dlab(t) /\ Uart!Loop(t) /\ Len(w) < QSIZE -> Append(w, a[3])
    [] a[1] = "write" /\ a[2] = 2 /\ a[3] \in {2, 6} -> <<>>
    [] a[1] = "tick" /\ Len(Do(t, i, a).inq) < Len(i) -> w \o Head(i)
    [] OTHER -> w

Next == \E a \in Acts :
          /\ Able(u, a)
          /\ LET r == Do(u, inq, a) IN
             /\ u' = r.u
             /\ inq' = r.inq
             /\ line' = IF r.line = "" THEN line ELSE r.line = "high"
             /\ want' = WantAfter(u, inq, want, a)

(* ---- what may be assumed ---- *)

Fifo == u.q = want
ReadRight == LET r == Uart!Read(u, 0) IN
               IF Uart!Dlab(u) THEN r.v = u.dll /\ r.u.q = u.q
               ELSE IF want = <<>> THEN r.u.q = <<>> ELSE r.v = Head(want)
Bounded == Len(u.q) <= QSIZE + 1
DataReady == Has(u.lsr, 1) <=> u.q # <<>>
TransmitterIdle == Has(u.lsr, 32) /\ Has(u.lsr, 64)

RxWanted == Has(u.ier, 1) /\ u.q # <<>>
TxWanted == Has(u.ier, 2)
LineRight == line <=> RxWanted \/ TxWanted
IirRight == /\ Has(u.iir, 1) <=> ~line
            /\ Has(u.iir, 4) <=> RxWanted
            /\ Has(u.iir, 2) <=> TxWanted

\* a byte written goes out once, unless it is looped back or goes to the divisor latch
TransmitRight ==
  \A b \in BYTES : Uart!Write(u, 0, b).tx = IF Uart!Dlab(u) \/ Uart!Loop(u) THEN <<>> ELSE <<b>>
\* no other access transmits anything, and reads other than of the data register change nothing
QuietReads == \A r \in 1..5 : Uart!Read(u, r).u = u
OnlyThrTransmits == \A a \in Acts : a[1] # "write" \/ a[2] # 0 => Do(u, inq, a).tx = <<>>

\* waiting input is taken within BACKOFF polls, when the UART may poll at all
RECURSIVE After(_, _, _)
After(t, i, n) == IF n = 0 \/ i = <<>> THEN i ELSE LET r == Uart!Tick(t, i) IN After(r.u, r.inq, n - 1)
Taken == inq # <<>> /\ Polls(u) => After(u, inq, BACKOFF) = <<>>
\* input is never taken while the line is up or the queue is full
NotTaken == ~Polls(u) => LET r == Uart!Tick(u, inq) IN r.u = u /\ r.inq = inq

Short == Len(u.q) <= QSIZE + 1

\* the graph: states up to the poll back-off and the divisor
Node(t) == ToString([t EXCEPT !.bk = 0, !.dll = 0, !.dlm = 0])
GraphShort == Len(u.q) <= 3
Graph ==
  Len(u.q) <= 3 =>
    PrintT("NODE " \o ToJson([s |-> Node(u),
                              t |-> {<<a[1], IF a[1] = "in" THEN Len(a[2]) ELSE a[2], a[3], Node(Do(u, inq, a).u)>> :
                                       a \in {b \in Acts : Able(u, b)}}]))
NodeView == <<Node(u)>>
=============================================================================
