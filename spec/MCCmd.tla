---------------------------------- MODULE MCCmd ----------------------------------
(***************************************************************************)
(* Every command line of at most MAX of the arguments below: what is       *)
(* understood does not depend on where the options stand, nothing after    *)
(* "--" is an option, and no argument is lost.                              *)
(***************************************************************************)
EXTENDS CmdLine

LOCAL INSTANCE SequencesExt

CONSTANT MAX

Tokens == {"a", "", "-", "-e", "-ee", "-ed", "--elfhead", "--pk", "--pk=k", "--pc", "--pc=0x10", "--", "-h", "-x", "--all=1"}
Whole == {"-e", "-ee", "--elfhead", "--pk=k", "--pc=0x10"}      \* options complete in one argument

VARIABLE argv

Init == argv = <<>>
Next == Len(argv) < MAX /\ \E t \in Tokens : argv' = Append(argv, t)

State(l) == FoldLeft(Token, Nothing, l)
Before(i) == State(SubSeq(argv, 1, i - 1))
Swapped(i) == [argv EXCEPT ![i] = argv[i + 1], ![i + 1] = argv[i]]
Plain(i) == ~Over(Before(i)) /\ ~Before(i).rest /\ Before(i).want = ""

\* an option and a positional argument next to each other may change places
OrderFree ==
  \A i \in 1..(Len(argv) - 1) :
    (Plain(i) /\ argv[i] \in Whole /\ ~IsOption(argv[i + 1])) => Ask(argv) = Ask(Swapped(i))

\* what follows "--" is positional
AfterDashes ==
  \A i \in 1..Len(argv) :
    (Plain(i) /\ argv[i] = "--") => LET c == State(argv)
                                    IN c.pos = Before(i).pos \o SubSeq(argv, i + 1, Len(argv)) /\ c.flags = Before(i).flags

\* what is run gets the pk, the file and the arguments
NothingLost ==
  LET a == Ask(argv)
      n(s) == Cardinality({i \in 1..Len(argv) : argv[i] \in s})
  IN a.what = "run" =>
       /\ a.args # <<>> /\ Len(a.args) = Len(State(argv).pos) + Len(State(argv).vals["pk"])
       /\ a.main = a.args[1] /\ a.name \in {a.args[1], IF Len(a.args) > 1 THEN a.args[2] ELSE ""}
       /\ (\A i \in 1..Len(argv) : argv[i] \notin {"--", "--pk", "--pc"}) =>
            Len(a.args) = n({"a", "", "-", "--pk=k"}) /\ n({"-x", "-ed", "--all=1", "-h", "-e", "-ee", "--elfhead"}) = 0

\* a mistake is not mended by what follows, nor by an option written out
Settled == \A i \in 1..Len(argv) : Before(i).bad => Ask(argv).what = "no"
SameFlag == \A i \in 1..Len(argv) :
              (Plain(i) /\ argv[i] \in {"-e", "-ee", "--elfhead"}) => \A t \in {"-e", "-ee", "--elfhead"} : Ask([argv EXCEPT ![i] = t]) = Ask(argv)
=============================================================================
