----------------------------------- MODULE MCFd -----------------------------------
(***************************************************************************)
(* The descriptor table and the files behind it, for a few calls on two    *)
(* files: what one descriptor does never shows on another, except through  *)
(* the contents of a file they share.                                      *)
(***************************************************************************)
EXTENDS Fesvr
CONSTANTS DEPTH
VARIABLES h, last
vars == <<h, last>>

A1 == <<97>>
B1 == <<98>>
H0 == LET g == AddInode(NoHost, 4, A1, Inode("f", A1, 420, <<1, 2>>))
      IN [AddInode(g, 4, B1, Inode("f", B1, 292, <<3>>)) EXCEPT !.uid = 1]

Fds == 0..4
Cwd == <<65436, 65535, 65535, 65535>>
RDONLY == Zero  RDWR == <<2, 0, 0, 0>>  CREATTRUNC == <<578, 0, 0, 0>>  APPEND == <<1026, 0, 0, 0>>

Do(a) ==
  CASE a[1] = "open"  -> OpenAt(h, Cwd, a[2], a[3], <<420, 0, 0, 0>>)
    [] a[1] = "close" -> Close(h, FromInt(a[2]))
    [] a[1] = "seek"  -> Lseek(h, FromInt(a[2]), FromInt(a[3]), FromInt(a[4]))
    [] a[1] = "read"  -> Read(h, FromInt(a[2]), a[3])
    [] a[1] = "write" -> Write(h, FromInt(a[2]), a[3])
    [] a[1] = "pwrite" -> Pwrite(h, FromInt(a[2]), a[3], FromInt(a[4]))
    [] a[1] = "pread" -> Pread(h, FromInt(a[2]), a[3], FromInt(a[4]))

Acts == {<<"open", p, f>> : p \in {A1, B1, <<99>>}, f \in {RDONLY, RDWR, CREATTRUNC, APPEND}}
        \cup {<<"close", g>> : g \in Fds}
        \cup {<<"seek", g, n, w>> : g \in 2..4, n \in {-1, 0, 1}, w \in 0..2}
        \cup {<<"read", g, n>> : g \in {1, 3, 4}, n \in {1, 5}}
        \cup {<<"write", g, bs>> : g \in {0, 3, 4}, bs \in {<<7>>, <<8, 9>>}}
        \cup {<<"pwrite", g, <<6>>, n>> : g \in 3..4, n \in {-1, 0, 3}}
        \cup {<<"pread", g, 2, n>> : g \in 3..4, n \in {-1, 1}}

Init == h = H0 /\ last = [a |-> <<"">>, v |-> Zero, bytes |-> <<>>, old |-> H0, n |-> 0]
Next == \E a \in Acts : /\ last.n < DEPTH
                        /\ LET r == Do(a) IN /\ h' = r.h
                                             /\ last' = [a |-> a, v |-> r.v, bytes |-> r.bytes, old |-> h, n |-> last.n + 1]

Old == last.old
Act == last.a[1]
Failing == Sign(last.v) = 1
On(P) == last.n > 0 => P
Ofd(t, g) == IF g + 1 > Len(t.fd) THEN 0 ELSE t.fd[g + 1]
Open(t) == {g \in 0..(Len(t.fd) - 1) : t.fd[g + 1] # 0}
\* where descriptor g stands
Place(t, g) == t.ofd[Ofd(t, g)]
Data(t, n) == t.ino[n].data

\* distinct descriptors are distinct open files
Injective == \A g, k \in Open(h) : Ofd(h, g) = Ofd(h, k) => g = k
\* a failing call changes nothing
NoEffect == On(Failing => h = Old)
OpenRight == On(Act = "open" /\ ~Failing =>
  LET g == Low31(last.v)
  IN /\ g \notin Open(Old) /\ \A k \in 0..(g - 1) : k \in Open(Old)       \* the lowest that was free
     /\ Open(h) = Open(Old) \cup {g}
     /\ Place(h, g).off = Zero
     /\ last.a[3] = CREATTRUNC => Data(h, Place(h, g).ino) = <<>>)
CloseRight == On(Act = "close" => IF last.a[2] \in Open(Old) THEN last.v = Zero /\ Open(h) = Open(Old) \ {last.a[2]}
                                  ELSE last.v = FromInt(-EBADF))
\* everything else leaves the table as it is
TableKept == On(Act \notin {"open", "close"} => h.fd = Old.fd)
\* no call moves another descriptor
OthersStay == On(\A g \in Open(h) \cap Open(Old) : Act = "open" \/ last.a[2] # g => Place(h, g) = Place(Old, g))
PositionedStay == On(Act \in {"pread", "pwrite"} => h.ofd = Old.ofd)
\* what is written is there, at the place; the rest of the file is as it was
WriteRight == On(Act = "write" /\ ~Failing =>
  LET p == Place(Old, last.a[2])
      at == IF p.app THEN Len(Data(Old, p.ino)) ELSE Low31(p.off)
      d0 == Data(Old, p.ino)
      d1 == Data(h, p.ino)
      n == Len(last.a[3])
  IN /\ p.ino > 3 => SubSeq(d1, at + 1, at + n) = last.a[3]
     /\ Place(h, last.a[2]).off = FromInt(at + n)
     /\ Len(d1) = IF at + n > Len(d0) THEN at + n ELSE Len(d0)
     /\ \A i \in 1..Len(d1) : i <= at \/ i > at + n => d1[i] = IF i <= Len(d0) THEN d0[i] ELSE 0)
ReadRight == On(Act = "read" /\ ~Failing =>
  LET p == Place(Old, last.a[2])
      at == Low31(p.off)
      d == Data(h, p.ino)
  IN /\ Len(last.bytes) <= last.a[3]
     /\ at < Len(d) => last.bytes = SubSeq(d, at + 1, at + Len(last.bytes)) /\ last.bytes # <<>>
     /\ at >= Len(d) => last.bytes = <<>>
     /\ Place(h, last.a[2]).off = FromInt(at + Len(last.bytes)))
\* only writing and truncating change contents; a file that may not be written is never changed
Contents == On(Act \in {"close", "seek", "read", "pread"} => h.ino = Old.ino)
Protected == h.ino[6].data = <<3>>
Guarded == On(Act \in {"write", "pwrite"} /\ ~Failing => Place(Old, last.a[2]).w)
=============================================================================
