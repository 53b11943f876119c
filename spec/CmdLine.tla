--------------------------------- MODULE CmdLine ---------------------------------
(***************************************************************************)
(* What a command line asks for:                                           *)
(*   carron [options] file [arguments of the program]                      *)
(* Options may stand anywhere up to "--"; all that is left after "--" is   *)
(* taken as it is.                                                         *)
(***************************************************************************)
EXTENDS Text, Elf, FiniteSets

LOCAL INSTANCE SequencesExt

Flags == ("elfhead" :> "e" @@ "program" :> "p" @@ "section" :> "s" @@ "disasem" :> "d" @@ "all" :> "a" @@ "help" :> "h" @@ "version" :> "V")
Letters == {Flags[f] : f \in DOMAIN Flags}
Valued == {"pk", "kernel", "initrd", "pc", "loglv"}
Repeatable == {"pc", "loglv"}              \* the first counts
Inspections == {"e", "p", "s", "d", "a"}

Begins(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
From(t, i) == SubSeq(t, i, Len(t))

\* where c first stands in t, 0 if nowhere
Find(t, c) == IF \E i \in 1..Len(t) : SubSeq(t, i, i) = c
              THEN CHOOSE i \in 1..Len(t) : SubSeq(t, i, i) = c /\ \A j \in 1..(i - 1) : SubSeq(t, j, j) # c
              ELSE 0

\* c: what has been understood so far; want: the option whose value comes next; rest: "--" has been seen
Nothing == [bad |-> FALSE, flags |-> {}, vals |-> [o \in Valued |-> <<>>], pos |-> <<>>, want |-> "", rest |-> FALSE]
Bad(c) == [c EXCEPT !.bad = TRUE]
Valuing(c, o, v) == [c EXCEPT !.vals[o] = Append(@, v), !.want = ""]
Flag(c, f) == [c EXCEPT !.flags = @ \cup {f}]
Over(c) == c.bad \/ c.flags \cap {"h", "V"} # {}

IsOption(t) == Begins(t, "-") /\ Len(t) > 1

Token(c, t) ==
  LET name == From(t, 3)
      eq == Find(name, "=")
      key == IF eq = 0 THEN name ELSE SubSeq(name, 1, eq - 1)
      letters == [i \in 1..(Len(t) - 1) |-> SubSeq(t, i + 1, i + 1)]
  IN CASE Over(c) -> c
       [] c.want # "" -> IF IsOption(t) THEN Bad(c) ELSE Valuing(c, c.want, t)
       [] c.rest \/ ~IsOption(t) -> [c EXCEPT !.pos = Append(@, t)]
       [] t = "--" -> [c EXCEPT !.rest = TRUE]
       [] Begins(t, "--") /\ key \in DOMAIN Flags -> IF eq # 0 THEN Bad(c) ELSE Flag(c, Flags[key])
       [] Begins(t, "--") /\ key \in Valued -> IF eq # 0 THEN Valuing(c, key, From(name, eq + 1)) ELSE [c EXCEPT !.want = key]
       [] Begins(t, "--") -> Bad(c)
       [] OTHER -> IF {letters[i] : i \in 1..Len(letters)} \subseteq Letters
                   THEN FoldLeft(LAMBDA d, l : Flag(d, l), c, letters) ELSE Bad(c)

Read(argv) == LET c == FoldLeft(Token, Nothing, argv)
              IN IF c.want # "" /\ ~Over(c) THEN Bad(c) ELSE c

(* ---- the address given with --pc ---- *)

Value(ch) == LET l == Find(DIGITS, ch)
                 u == Find("0123456789ABCDEF", ch)
             IN IF l # 0 THEN l - 1 ELSE IF u # 0 THEN u - 1 ELSE 16
Digits(t) == IF Begins(t, "0x") THEN From(t, 3) ELSE t
\* without the zeros it begins with
Significant(t) == IF \E i \in 1..Len(t) : SubSeq(t, i, i) # "0"
                  THEN From(t, CHOOSE i \in 1..Len(t) : SubSeq(t, i, i) # "0" /\ \A j \in 1..(i - 1) : SubSeq(t, j, j) = "0")
                  ELSE ""
Number(t) == FoldLeft(LAMBDA w, v : <<((w[1] * 16) % 65536) + v,
                                      ((w[2] * 16) % 65536) + (w[1] \div 4096),
                                      ((w[3] * 16) % 65536) + (w[2] \div 4096),
                                      ((w[4] * 16) % 65536) + (w[3] \div 4096)>>,
                      Zero, [i \in 1..Len(t) |-> Value(SubSeq(t, i, i))])
IsAddress(t) == LET d == Digits(t)
                IN d # "" /\ Len(Significant(d)) <= 16 /\ \A i \in 1..Len(d) : Value(SubSeq(d, i, i)) < 16

(* ---- the whole ---- *)

Levels == {"nolog", "diff", "info", "debug", "trace"}

\* what: "no" (refused), "about" (help or version), an inspection, or "run"
Ask(argv) ==
  LET c == Read(argv)
      val(o) == c.vals[o]
      looks == c.flags \cap Inspections
      what == CASE c.bad -> "no"
                [] c.flags \cap {"h", "V"} # {} -> "about"
                [] \E o \in Valued \ Repeatable : Len(val(o)) > 1 -> "no"
                [] Len(c.pos) = 0 \/ Cardinality(looks) > 1 -> "no"
                [] val("pc") # <<>> /\ ~IsAddress(val("pc")[1]) -> "no"
                [] looks # {} -> CHOOSE l \in looks : TRUE
                [] OTHER -> "run"
  IN [what |-> what,
      name |-> IF c.pos = <<>> THEN "" ELSE c.pos[1],
      main |-> IF val("pk") # <<>> THEN val("pk")[1] ELSE IF c.pos = <<>> THEN "" ELSE c.pos[1],
      args |-> val("pk") \o c.pos,
      kernel |-> val("kernel"), initrd |-> val("initrd"),
      pc |-> IF what = "run" /\ val("pc") # <<>> THEN <<Number(Digits(val("pc")[1]))>> ELSE <<>>,
      level |-> IF val("loglv") = <<>> \/ val("loglv")[1] \notin Levels THEN "nolog" ELSE val("loglv")[1]]

(* ---- and what it comes to, with the files there are ---- *)

Code(ch) == 31 + Find(CHARS, ch)
Bytes(t) == [i \in 1..Len(t) |-> Code(SubSeq(t, i, i))]

\* files: <<name, bytes>>
There(r, n) == \E i \in 1..Len(r.files) : r.files[i][1] = n
Contents(r, n) == r.files[CHOOSE i \in 1..Len(r.files) : r.files[i][1] = n][2]

\* a recorded configuration whose command line is to be understood
Missing(r, a) == ~There(r, a.main) \/ \E n \in {(a.kernel \o a.initrd)[i] : i \in 1..Len(a.kernel \o a.initrd)} : ~There(r, n)
Understood(r) ==
  IF r.argv = <<>> THEN r
  ELSE LET a == Ask(r.argv)
           runs == a.what = "run" /\ ~Missing(r, a) /\ IsElf(Contents(r, a.main))
           some(l) == IF l = <<>> THEN <<>> ELSE Contents(r, l[1])
       IN [r EXCEPT !.inert = IF runs THEN 0 ELSE 1,
                    !.elf = IF There(r, a.main) THEN Contents(r, a.main) ELSE <<>>,
                    !.kernel = IF runs THEN some(a.kernel) ELSE <<>>,
                    !.initrd = IF runs THEN some(a.initrd) ELSE <<>>,
                    !.pc = a.pc,
                    !.args = IF runs THEN [i \in 1..Len(a.args) |-> Bytes(a.args[i])] ELSE <<>>,
                    !.level = a.level]
=============================================================================
