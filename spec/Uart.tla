---------------------------------- MODULE Uart ---------------------------------
(***************************************************************************)
(* The 16550-like UART.  An access gives the new state, the value read,    *)
(* the bytes transmitted, and whether the interrupt line was re-evaluated. *)
(*                                                                         *)
(* Named deviations from a 16550 that the emulator has on purpose or by    *)
(* simplification, kept here: LSR and MSR are writable storage; registers  *)
(* 8..255 of the page are storage; transmission is instantaneous; console  *)
(* input is polled once per batch of instructions, at most every           *)
(* BACKOFF-th time after an empty poll, and never in loopback mode or      *)
(* while QSIZE or more bytes are queued or IIR shows no "none" bit.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS QSIZE, BACKOFF

RBR == 0  IER == 1  IIR == 2  LCR == 3  MCR == 4  LSR == 5  MSR == 6

DR == 1           \* LSR: data ready
BRK == 16         \* LSR: break
TEMT == 96        \* LSR: transmitter and holding register empty

Has(v, bit) == (v \div bit) % 2 = 1
SetB(v, bit) == IF Has(v, bit) THEN v ELSE v + bit
ClrB(v, bit) == IF Has(v, bit) THEN v - bit ELSE v

Init0 == [ier |-> 0, iir |-> 1, lcr |-> 0, mcr |-> 8, lsr |-> 96, msr |-> 176,
          dll |-> 12, dlm |-> 0, fcr |-> 0, q |-> <<>>, bk |-> 0, ext |-> <<>>]

Dlab(u) == Has(u.lcr, 128)
Loop(u) == Has(u.mcr, 16)

SetTemt(u) == [u EXCEPT !.lsr = SetB(SetB(@, 64), 32)]

\* registers 7..255: plain storage
Ext(u, i) == IF i \in DOMAIN u.ext THEN u.ext[i] ELSE 0

\* the interrupt condition, after executing pending FIFO control requests
Refresh(u0) ==
  LET u1 == IF Has(u0.fcr, 2) THEN [u0 EXCEPT !.fcr = @ - 2, !.q = <<>>, !.lsr = ClrB(@, DR)] ELSE u0
      u2 == IF Has(u1.fcr, 4) THEN SetTemt([u1 EXCEPT !.fcr = @ - 4]) ELSE u1
      rx == Has(u2.ier, 1) /\ Has(u2.lsr, DR)
      tx == Has(u2.ier, 2) /\ Has(u2.lsr, 64)
      u3 == [u2 EXCEPT !.iir = IF ~rx /\ ~tx THEN 1 ELSE (IF rx THEN 4 ELSE 0) + (IF tx THEN 2 ELSE 0)]
  IN [u |-> IF Has(u3.ier, 2) THEN u3 ELSE SetTemt(u3), high |-> rx \/ tx]

\* res: new state u, value v, transmitted bytes tx, line: "" or "high" or "low"
Quiet(u, v)   == [u |-> u, v |-> v, tx |-> <<>>, line |-> ""]
Refreshed(u, v) == LET r == Refresh(u) IN
                   [u |-> r.u, v |-> v, tx |-> <<>>, line |-> IF r.high THEN "high" ELSE "low"]

Receive(u) ==
  IF u.q = <<>> THEN [u |-> [u EXCEPT !.lsr = ClrB(@, DR)], v |-> 0]
  ELSE IF Has(u.lsr, BRK) THEN [u |-> [u EXCEPT !.lsr = @ - BRK], v |-> 0]
  ELSE [u |-> [u EXCEPT !.q = Tail(@), !.lsr = IF Len(u.q) = 1 THEN ClrB(@, DR) ELSE @],
        v |-> Head(u.q)]

Read(u, i) ==
  CASE i = RBR -> IF Dlab(u) THEN Refreshed(u, u.dll)
                  ELSE LET r == Receive(u) IN Refreshed(r.u, r.v)
    [] i = IER -> Quiet(u, IF Dlab(u) THEN u.dlm ELSE u.ier)
    [] i = IIR -> Quiet(u, (u.iir % 64) + 192)
    [] i = LCR -> Quiet(u, u.lcr)
    [] i = MCR -> Quiet(u, u.mcr)
    [] i = LSR -> Quiet(u, u.lsr)
    [] i = MSR -> Quiet(u, u.msr)
    [] OTHER   -> Quiet(u, Ext(u, i))

Write(u, i, v) ==
  CASE i = RBR -> IF Dlab(u) THEN Refreshed([u EXCEPT !.dll = v], 0)
                  ELSE IF Loop(u)
                  THEN Refreshed(IF Len(u.q) < QSIZE
                                 THEN [u EXCEPT !.q = Append(@, v), !.lsr = SetB(@, DR)]
                                 ELSE u, 0)
                  ELSE [u |-> SetTemt(u), v |-> 0, tx |-> <<v>>, line |-> ""]
    [] i = IER -> Refreshed(IF Dlab(u) THEN [u EXCEPT !.dlm = v] ELSE [u EXCEPT !.ier = v % 16], 0)
    [] i = IIR -> Refreshed([u EXCEPT !.fcr = v], 0)
    [] i = LCR -> Refreshed([u EXCEPT !.lcr = v], 0)
    [] i = MCR -> Refreshed([u EXCEPT !.mcr = v], 0)
    [] i = LSR -> Quiet([u EXCEPT !.lsr = v], 0)
    [] i = MSR -> Quiet([u EXCEPT !.msr = v], 0)
    [] OTHER   -> Quiet([u EXCEPT !.ext = [j \in DOMAIN u.ext \cup {i} |->
                                            IF j = i THEN v ELSE u.ext[j]]], 0)

\* poll the console: inq is the sequence of input chunks not yet taken
Tick(u, inq) ==
  IF ~Has(u.iir, 1) \/ Loop(u) \/ Len(u.q) >= QSIZE
  THEN [u |-> u, inq |-> inq, line |-> ""]
  ELSE IF u.bk > 0 /\ u.bk < BACKOFF
  THEN [u |-> [u EXCEPT !.bk = @ + 1], inq |-> inq, line |-> ""]
  ELSE IF inq = <<>>
  THEN [u |-> [u EXCEPT !.bk = 1], inq |-> inq, line |-> ""]
  ELSE LET r == Refresh([u EXCEPT !.bk = 0, !.q = @ \o Head(inq), !.lsr = SetB(@, DR)])
       IN [u |-> r.u, inq |-> Tail(inq), line |-> IF r.high THEN "high" ELSE "low"]
=============================================================================
