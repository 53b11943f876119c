----------------------------------- MODULE Log -----------------------------------
(***************************************************************************)
(* What the emulator logs about one iteration of its loop:                 *)
(*   info    the address of each instruction that is fetched, each         *)
(*           exception or interrupt with its name, whether it is           *)
(*           delegated and where it leads, and each host call              *)
(*   debug   that, and the registers after the iteration                   *)
(*   diff    the address and the registers, when enough iterations have    *)
(*           been done                                                     *)
(* Lines of other forms may appear between these.                          *)
(***************************************************************************)
EXTENDS System, Text

Long(w) == HexN(w[4], 4) \o HexN(w[3], 4) \o HexN(w[2], 4) \o HexN(w[1], 4)
Short(w) == HexN(w[2], 4) \o HexN(w[1], 4)
OfXlen(rv, w) == "0x" \o (IF rv = 32 THEN Short(w) ELSE Long(w))

(* ---- names ---- *)

Exceptions == <<"InstAddrMisaligned", "InstAccessFault", "IllegalInst", "Breakpoint", "LoadAddrMisaligned", "LoadAccessFault",
                "StoreAMOAddrMisaligned", "StoreAMOAccessFault", "UmodeEcall", "SmodeEcall", "", "MmodeEcall", "InstPageFault",
                "LoadPageFault", "", "StoreAMOPageFault">>
Interrupts == (SSI :> "SupervisorSoftwareInterrupt" @@ MSI :> "MachineSoftwareInterrupt" @@ STI :> "SupervisorTimerInterrupt"
               @@ MTI :> "MachineTimerInterrupt" @@ SEI :> "SupervisorExternalInterrupt" @@ MEI :> "MachineExternalInterrupt")
Calls == (56 :> "sys_openat(56)" @@ 57 :> "sys_close(57)" @@ 62 :> "sys_lseek(62)" @@ 63 :> "sys_read(63)" @@ 64 :> "sys_write(64)"
          @@ 67 :> "sys_pread(67)" @@ 68 :> "sys_pwrite(68)" @@ 79 :> "sys_fstatat(79)" @@ 80 :> "sys_fstat(80)"
          @@ 93 :> "sys_exit(93)" @@ 2011 :> "sys_getmainvars(2011)")

(* ---- info ---- *)

TrapLines(s, name, cause, int, t) ==
  <<"[exception: " \o name \o "]">>
  \o (IF Delegated(s, cause, int) THEN <<"delegated">> ELSE <<>>)
  \o <<"new pc: 0x" \o Hex(t.pc)>>

Fetches(s) ==
  LET p == FetchParcel(s, s.pc)
  IN p.ok /\ (p.h % 4 # 3 \/ FetchParcel(s, Next4(s, 2)).ok)

\* of the hart's turn; t is the state after it
TurnLines(s0, t) ==
  LET s == RefreshMip(s0)
      i == Interrupt(s)
      r == Instruction(s)
  IN IF i # 0 THEN TrapLines(s, Interrupts[i], i, TRUE, t)
     ELSE (IF Fetches(s) THEN <<"pc: " \o OfXlen(s.rv, s.pc)>> ELSE <<>>)
          \o (IF r.ok THEN <<>> ELSE TrapLines(r.s, Exceptions[r.cause + 1], r.cause, FALSE, t))

\* of the host's turn
CallLines(t) ==
  IF ~t.cf.htif THEN <<>>
  ELSE LET req == DramLoad(t, t.cf.tohost, 8)
       IN IF (req[1] = 0 /\ req[2] = 0) \/ req[1] % 2 = 1 THEN <<>>
          ELSE <<Calls[DramLoad(t, <<req[1], req[2], req[3], 0>>, 8)[1]]>>

InfoLines(s0) ==
  LET t == TLCEval(OneCycle([s0 EXCEPT !.wr = {}, !.out = <<>>]))
  IN TurnLines(s0, t) \o CallLines(t)

(* ---- the registers; u: after the iteration ---- *)

RECURSIVE Row(_, _, _)
Row(u, r, n) ==
  IF n = 0 \/ r > 31 THEN ""
  ELSE RightIn(Regs[r + 1], 4) \o ": " \o OfXlen(u.rv, X(u, r)) \o "\t" \o Row(u, r + 1, n - 1)

DumpLines(u) ==
  LET n == IF u.rv = 32 THEN 4 ELSE 3
  IN [k \in 1..((31 + n) \div n) |-> Row(u, n * (k - 1), n)]

Cell(u, r, width) == RightIn(Regs[r + 1], width) \o ": 0x" \o Long(X(u, r))
TableLines(u) ==
  [k \in 1..8 |-> LET r == 4 * (k - 1)
                  IN Cell(u, r, 4) \o " " \o Cell(u, r + 1, 3) \o " " \o Cell(u, r + 2, 3) \o " " \o Cell(u, r + 3, 3)]

DiffLines(s0, u) == <<"0x" \o Long(s0.pc), ":">> \o TableLines(u)

(* ---- recorded text ---- *)

\* the lines of bs
RECURSIVE SplitAt(_, _, _)
SplitAt(bs, i, cur) ==
  IF i > Len(bs) THEN IF cur = "" THEN <<>> ELSE <<cur>>
  ELSE IF bs[i] = 10 THEN <<cur>> \o SplitAt(bs, i + 1, "")
  ELSE SplitAt(bs, i + 1, cur \o (CASE bs[i] = 9 -> "\t" [] bs[i] \in 32..126 -> Chr(bs[i]) [] OTHER -> "?"))
Lines(bs) == SplitAt(bs, 1, "")

Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
RECURSIVE UpTo(_, _, _)
UpTo(t, c, i) == IF i > Len(t) \/ SubSeq(t, i, i) = c THEN SubSeq(t, 1, i) ELSE UpTo(t, c, i + 1)

IsInfo(t) == Starts(t, "pc: ") \/ Starts(t, "[exception") \/ Starts(t, "delegated") \/ Starts(t, "new pc: ") \/ Starts(t, "sys_")
IsDump(t) == Len(t) > 8 /\ SubSeq(t, 5, 8) = ": 0x" /\ \E i \in 1..Len(t) : SubSeq(t, i, i) = "\t"
Cut(t) == IF Starts(t, "[exception") THEN UpTo(t, "]", 1) ELSE t

\* the lines that matter: at info, debug and trace
Said(bs, dump) ==
  LET ls == SelectSeq(Lines(bs), LAMBDA t : IsInfo(t) \/ (dump /\ IsDump(t)))
  IN [k \in 1..Len(ls) |-> Cut(ls[k])]

THRESHOLD == 350000000

\* what iteration number n from s0 to u says at level lv
Expected(lv, s0, u, n) ==
  CASE lv = "info" -> InfoLines(s0)
    [] lv \in {"debug", "trace"} ->
         \* (the registers are shown between the hart's turn and the host's)
         LET t == TLCEval(OneCycle([s0 EXCEPT !.wr = {}, !.out = <<>>]))
         IN TurnLines(s0, t) \o DumpLines(u) \o CallLines(t)
    [] lv = "diff" -> IF n > THRESHOLD THEN DiffLines(s0, u) ELSE <<>>

Recorded(lv, bs) == IF lv = "diff" THEN Lines(bs) ELSE Said(bs, lv # "info")
=============================================================================
