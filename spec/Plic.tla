---------------------------------- MODULE Plic ---------------------------------
(***************************************************************************)
(* The interrupt controller: NSRC level-triggered sources, two contexts    *)
(* (1: machine mode, 2: supervisor mode).                                  *)
(*                                                                         *)
(* A context latches "pending" when an enabled source's line is (or goes)  *)
(* high, "claimed" when the guest claims it; both are withdrawn when the   *)
(* line drops or the source is disabled, and completion clears "claimed".  *)
(* val is the external-interrupt signal of each context as of its latest   *)
(* update; mask says which contexts have ever been updated: only those     *)
(* drive their bit of mip.                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS NSRC,        \* sources 1..NSRC
          NPRIO        \* priorities and thresholds 0..NPRIO-1

Src == 1..NSRC
Ctx == 1..2

Init0 == [pri  |-> [i \in Src |-> 0],
          lvl  |-> {},
          en   |-> [c \in Ctx |-> {}],
          pend |-> [c \in Ctx |-> {}],
          clm  |-> [c \in Ctx |-> {}],
          thr  |-> [c \in Ctx |-> 0],
          mask |-> {},
          val  |-> {}]

\* the source a claim by context c returns now, 0 if none
Best(p, c) ==
  LET cand == {i \in p.pend[c] \ p.clm[c] : p.pri[i] > 0}
  IN IF cand = {} THEN 0
     ELSE CHOOSE i \in cand : \A j \in cand :
            p.pri[j] < p.pri[i] \/ (p.pri[j] = p.pri[i] /\ i <= j)

Signal(p, c) == LET b == Best(p, c) IN b # 0 /\ p.pri[b] > p.thr[c]

Update(p, c) == [p EXCEPT !.mask = @ \cup {c},
                          !.val  = IF Signal(p, c) THEN @ \cup {c} ELSE @ \ {c}]

UpdateBoth(p) == Update(Update(p, 1), 2)

(* ---- what the guest does ---- *)

SetPriority(p, i, v) ==
  IF i \in Src THEN UpdateBoth([p EXCEPT !.pri[i] = v % NPRIO]) ELSE p

SetThreshold(p, c, v) == Update([p EXCEPT !.thr[c] = v % NPRIO], c)

\* new: the set of enabled sources
SetEnable(p, c, new) ==
  LET added   == new \ p.en[c]
      removed == p.en[c] \ new
  IN Update([p EXCEPT !.en[c]   = new,
                      !.pend[c] = (@ \cup (added \cap p.lvl)) \ removed,
                      !.clm[c]  = @ \ removed], c)

Claim(p, c) ==
  LET b == Best(p, c)
  IN [id |-> b, p |-> Update(IF b = 0 THEN p ELSE [p EXCEPT !.clm[c] = @ \cup {b}], c)]

Complete(p, c, i) ==
  IF i \in p.en[c] THEN Update([p EXCEPT !.clm[c] = @ \ {i}], c) ELSE p

(* ---- what the devices do ---- *)

NotifyCtx(p, c, i, high) ==
  IF i \notin p.en[c] THEN p
  ELSE Update(IF high THEN [p EXCEPT !.pend[c] = @ \cup {i}]
              ELSE [p EXCEPT !.pend[c] = @ \ {i}, !.clm[c] = @ \ {i}], c)

SetLevel(p, i, high) ==
  LET q == [p EXCEPT !.lvl = IF high THEN @ \cup {i} ELSE @ \ {i}]
  IN NotifyCtx(NotifyCtx(q, 1, i, high), 2, i, high)

(* ---- what the hart does: taking the interrupt withdraws the signal ---- *)

Taken(p, c) == [p EXCEPT !.val = @ \ {c}]
=============================================================================
