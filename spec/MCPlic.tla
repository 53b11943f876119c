--------------------------------- MODULE MCPlic ---------------------------------
(***************************************************************************)
(* The interrupt controller by itself, exhaustively, with few sources and  *)
(* priorities, against what a driver author may assume of it.              *)
(*                                                                         *)
(* p     the controller                                                    *)
(* held  history: held[c] are the sources context c has been given and     *)
(*       that it has not completed, disabled, or lost to a falling line    *)
(* took  history: contexts whose interrupt was taken since the controller  *)
(*       last had reason to look at it                                     *)
(*                                                                         *)
(* Graph prints every state of the controller with its successors: the     *)
(* graph from which walks over the real controller are generated.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NSRC, NPRIO
VARIABLES p, held, took
vars == <<p, held, took>>

Plic == INSTANCE Plic

Src == 1..NSRC
Ctx == 1..2

Init == p = Plic!Init0 /\ held = [c \in Ctx |-> {}] /\ took = {}

(* actions are tuples <<what, context or source, value>> *)
Acts == {<<"up", i, 0>> : i \in Src} \cup {<<"down", i, 0>> : i \in Src}
        \cup {<<"pri", i, v>> : i \in Src, v \in 0..(NPRIO - 1)}
        \cup {<<"thr", c, v>> : c \in Ctx, v \in 0..(NPRIO - 1)}
        \cup {<<"en", c, s>> : c \in Ctx, s \in SUBSET Src}
        \cup {<<"claim", c, 0>> : c \in Ctx}
        \cup {<<"complete", c, i>> : c \in Ctx, i \in Src}
        \cup {<<"taken", c, 0>> : c \in Ctx}

Able(q, a) == a[1] = "taken" => a[2] \in q.val

Do(q, a) ==
  CASE a[1] = "up" -> Plic!SetLevel(q, a[2], TRUE)
    [] a[1] = "down" -> Plic!SetLevel(q, a[2], FALSE)
    [] a[1] = "pri" -> Plic!SetPriority(q, a[2], a[3])
    [] a[1] = "thr" -> Plic!SetThreshold(q, a[2], a[3])
    [] a[1] = "en" -> Plic!SetEnable(q, a[2], a[3])
    [] a[1] = "claim" -> Plic!Claim(q, a[2]).p
    [] a[1] = "complete" -> Plic!Complete(q, a[2], a[3])
    [] a[1] = "taken" -> Plic!Taken(q, a[2])

HeldAfter(q, h, a) ==
  CASE a[1] = "down" -> [c \in Ctx |-> h[c] \ {a[2]}]
    [] a[1] = "en" -> [h EXCEPT ![a[2]] = @ \cap a[3]]
    [] a[1] = "claim" -> [h EXCEPT ![a[2]] = @ \cup ({Plic!Claim(q, a[2]).id} \ {0})]
    [] a[1] = "complete" -> [h EXCEPT ![a[2]] = @ \ {a[3]}]
    [] OTHER -> h

\* whom does the action concern?
Concerns(q, a) ==
  CASE a[1] \in {"up", "down"} -> {c \in Ctx : a[2] \in q.en[c]}
    [] a[1] = "pri" -> Ctx
    [] a[1] = "complete" -> IF a[3] \in q.en[a[2]] THEN {a[2]} ELSE {}
    [] a[1] = "taken" -> {}
    [] OTHER -> {a[2]}

Next == \E a \in Acts :
          /\ Able(p, a)
          /\ p' = Do(p, a)
          /\ held' = HeldAfter(p, held, a)
          /\ took' = IF a[1] = "taken" THEN took \cup {a[2]} ELSE took \ Concerns(p, a)

(* ---- what may be assumed ---- *)

Waiting(c) == {i \in Src : i \in p.lvl /\ i \in p.en[c] /\ i \notin held[c] /\ p.pri[i] > 0}

\* pending: exactly the asserted, enabled sources
Pending == \A c \in Ctx : p.pend[c] = p.lvl \cap p.en[c]
\* claimed: exactly those handed out and not given back
Claimed == \A c \in Ctx : p.clm[c] = held[c]

\* a claim gives the most urgent waiting source; lower numbers first among equals; 0 if none waits
ClaimRight ==
  \A c \in Ctx : LET g == Plic!Claim(p, c) IN
    IF Waiting(c) = {} THEN g.id = 0 /\ g.p.clm = p.clm
    ELSE /\ g.id \in Waiting(c)
         /\ \A i \in Waiting(c) : p.pri[i] <= p.pri[g.id] /\ (p.pri[i] = p.pri[g.id] => g.id <= i)
         /\ g.p.clm[c] = p.clm[c] \cup {g.id}
         /\ \A d \in Ctx \ {c} : g.p.clm[d] = p.clm[d] /\ (d \in g.p.val <=> d \in p.val)
         /\ g.p.pri = p.pri /\ g.p.thr = p.thr /\ g.p.en = p.en /\ g.p.lvl = p.lvl /\ g.p.pend = p.pend

\* claiming over and over gives every waiting source once, by urgency, then 0
RECURSIVE Drain(_, _, _)
Drain(q, c, n) == IF n = 0 THEN <<>> ELSE LET g == Plic!Claim(q, c) IN <<g.id>> \o Drain(g.p, c, n - 1)
DrainRight ==
  \A c \in Ctx : LET d == Drain(p, c, NSRC + 1)
                     k == Cardinality(Waiting(c))
                 IN /\ {d[j] : j \in 1..k} = Waiting(c)
                    /\ \A j \in (k + 1)..(NSRC + 1) : d[j] = 0
                    /\ \A j \in 1..(k - 1) : p.pri[d[j]] >= p.pri[d[j + 1]]

\* the signal: some waiting source is above the threshold, unless it was taken and nothing has happened since
SignalRight ==
  \A c \in Ctx : c \notin took => (c \in p.val <=> \E i \in Waiting(c) : p.pri[i] > p.thr[c])
SilentWhenTaken == took \cap p.val = {}
\* a context that never had anything enabled is silent
Untouched == \A c \in Ctx : c \notin p.mask => p.en[c] = {} /\ c \notin p.val

\* a completion by one context, or of a source it has not enabled, changes nothing for anybody else
CompleteLocal ==
  \A c \in Ctx, i \in Src : LET q == Plic!Complete(p, c, i) IN
    /\ \A d \in Ctx \ {c} : q.clm[d] = p.clm[d] /\ (d \in q.val <=> d \in p.val)
    /\ i \notin p.en[c] => q = p
    /\ i \in Plic!Src /\ i \in p.en[c] /\ i \in p.lvl /\ p.pri[i] > 0 =>
         \* given back while its line is up: it waits again
         i \in {Drain(q, c, NSRC)[j] : j \in 1..NSRC}

(* ---- the graph ---- *)

Graph == PrintT("NODE " \o ToJson([s |-> ToString(p),
                                  t |-> {<<a[1], a[2], a[3], ToString(Do(p, a))>> : a \in {b \in Acts : Able(p, b)}}]))

NodeView == <<p>>
=============================================================================
