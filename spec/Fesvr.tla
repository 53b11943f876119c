---------------------------------- MODULE Fesvr ----------------------------------
(***************************************************************************)
(* The host interface (HTIF mailbox and proxied system calls) and, as the  *)
(* oracle for it, the part of a POSIX host that the calls reach: processes *)
(* have open file descriptions, these refer to inodes, directories map     *)
(* names to inodes.                                                        *)
(*                                                                         *)
(* host is a record                                                        *)
(*   uid   the user the emulator runs as                                   *)
(*   fd    guest descriptor g is fd[g+1]: an open file description, 0 free *)
(*   ofd   open file descriptions [ino, off, r, w, app]                    *)
(*   ino   inodes [t, key, mode, data, ents, head, base], t: "f"ile,       *)
(*         "d"irectory, sym"l"ink, "p"ipe; key: its path (or <0>, ...)     *)
(*         a file is head, a hole up to offset base, and data              *)
(*   snap  what the host says about all inodes: <<key, 13 words of stat>>  *)
(*   exit  -1, or the status the process ends with                         *)
(* Inodes 1..3 are the standard streams, 4 is the working directory.       *)
(* Transfer lengths are small integers; sizes and offsets are words.       *)
(***************************************************************************)
EXTENDS Hart

ENOENT == 2  EBADF == 9  ENOMEM == 12  EACCES == 13  EEXIST == 17  ENOTDIR == 20  EISDIR == 21
EINVAL == 22  ESPIPE == 29  ENAMETOOLONG == 36  ELOOP == 40

UMASK == 18                     \* 022
SLASH == 47
DOT == <<46>>
DOTDOT == <<46, 46>>
NAMEMAX == 255
PATHMAX == 4096                 \* with the NUL
CWDLINK == <<47, 112, 114, 111, 99, 47, 115, 101, 108, 102, 47, 99, 119, 100>>    \* /proc/self/cwd
ATFDCWD(d) == d[1] = 65436 /\ d[2] = 65535      \* -100, as a 32-bit number

Inode(t, key, mode, data) == [t |-> t, key |-> key, mode |-> mode, data |-> data, ents |-> <<>>,
                               head |-> <<>>, base |-> Zero]

StdKey(i) == <<60, 48 + i, 62>>

NoHost ==
  [uid  |-> 0,
   fd   |-> <<1, 2, 3>>,
   ofd  |-> <<[ino |-> 1, off |-> Zero, r |-> TRUE, w |-> FALSE, app |-> FALSE],
              [ino |-> 2, off |-> Zero, r |-> FALSE, w |-> TRUE, app |-> TRUE],
              [ino |-> 3, off |-> Zero, r |-> FALSE, w |-> TRUE, app |-> TRUE]>>,
   ino  |-> <<Inode("f", StdKey(0), 384, <<>>), Inode("f", StdKey(1), 384, <<>>),
              Inode("f", StdKey(2), 384, <<>>), Inode("d", <<>>, 493, <<>>)>>,
   snap |-> <<>>, exit |-> -1]

(* ---------------------------------------------------------------------- *)
(* the file system                                                        *)
(* ---------------------------------------------------------------------- *)

May(h, n, bit) == h.uid = 0 \/ (h.ino[n].mode \div bit) % 2 = 1
MayRead(h, n) == May(h, n, 256)
MayWrite(h, n) == May(h, n, 128)
MaySearch(h, n) == May(h, n, 64)

\* the components of a path
RECURSIVE Split(_, _, _)
Split(p, cur, acc) ==
  LET acc2 == IF cur = <<>> THEN acc ELSE Append(acc, cur)
  IN IF p = <<>> THEN acc2
     ELSE IF Head(p) = SLASH THEN Split(Tail(p), <<>>, acc2)
     ELSE Split(Tail(p), Append(cur, Head(p)), acc)
Components(p) == Split(p, <<>>, <<>>)

Found(n) == [err |-> 0, dir |-> 0, name |-> <<>>, ino |-> n]
Missing(d, name) == [err |-> 0, dir |-> d, name |-> name, ino |-> 0]
Failed(e) == [err |-> e, dir |-> 0, name |-> <<>>, ino |-> 0]

\* (the parent of the working directory is not modelled)
ParentOf(h, d) == CHOOSE p \in 4..Len(h.ino) : \E c \in DOMAIN h.ino[p].ents : h.ino[p].ents[c] = d

RECURSIVE Resolve(_, _, _, _, _)
Resolve(h, d, comps, follow, depth) ==
  IF depth > 40 THEN Failed(ELOOP)
  ELSE IF comps = <<>> THEN Found(d)
  ELSE IF h.ino[d].t # "d" THEN Failed(ENOTDIR)
  ELSE IF ~MaySearch(h, d) THEN Failed(EACCES)
  ELSE LET c == Head(comps)
           rest == Tail(comps)
           es == h.ino[d].ents
       IN IF c = DOT THEN Resolve(h, d, rest, follow, depth)
          ELSE IF c = DOTDOT THEN Resolve(h, ParentOf(h, d), rest, follow, depth)
          ELSE IF Len(c) > NAMEMAX THEN Failed(ENAMETOOLONG)
          ELSE IF c \notin DOMAIN es THEN (IF rest = <<>> THEN Missing(d, c) ELSE Failed(ENOENT))
          ELSE IF h.ino[es[c]].t = "l" /\ (rest # <<>> \/ follow)
          THEN Resolve(h, d, Components(h.ino[es[c]].data) \o rest, follow, depth + 1)
          ELSE Resolve(h, es[c], rest, follow, depth)

\* the directory a relative path starts from: 0 if the descriptor is bad
Lookup(h, g) ==            \* open file description of a guest descriptor (a word), 0 if none
  IF g[2] # 0 \/ g[3] # 0 \/ g[4] # 0 \/ g[1] >= Len(h.fd) THEN 0 ELSE h.fd[g[1] + 1]

At(h, dirfd, path, follow) ==
  IF path = <<>> THEN Failed(ENOENT)
  ELSE IF Len(path) >= PATHMAX THEN Failed(ENAMETOOLONG)
  ELSE IF Len(path) >= Len(CWDLINK) /\ SubSeq(path, 1, Len(CWDLINK)) = CWDLINK
  THEN Resolve(h, 4, Components(SubSeq(path, Len(CWDLINK) + 1, Len(path))), follow, 0)
  ELSE IF Head(path) = SLASH THEN Failed(ENOENT)        \* nothing else outside the working directory is named
  ELSE IF ATFDCWD(dirfd) THEN Resolve(h, 4, Components(path), follow, 0)
  ELSE LET o == Lookup(h, dirfd)
       IN IF o = 0 THEN Failed(EBADF) ELSE Resolve(h, h.ofd[o].ino, Components(path), follow, 0)

(* ---------------------------------------------------------------------- *)
(* the calls: [h, v (a word)] and for reads the bytes                     *)
(* ---------------------------------------------------------------------- *)

Err(h, e) == [h |-> h, v |-> FromInt(-e), bytes |-> <<>>]
Ret(h, n) == [h |-> h, v |-> FromInt(n), bytes |-> <<>>]

AddFd(h, o) ==         \* the lowest free guest descriptor
  IF \E g \in 1..Len(h.fd) : h.fd[g] = 0
  THEN LET g == CHOOSE g \in 1..Len(h.fd) : h.fd[g] = 0 /\ \A k \in 1..(g - 1) : h.fd[k] # 0
       IN Ret([h EXCEPT !.fd[g] = o], g - 1)
  ELSE Ret([h EXCEPT !.fd = Append(@, o)], Len(h.fd))

OpenInode(h, n, acc, app) ==
  AddFd([h EXCEPT !.ofd = Append(@, [ino |-> n, off |-> Zero, r |-> acc # 1, w |-> acc # 0, app |-> app])],
        Len(h.ofd) + 1)

JoinKey(h, d, name) == IF h.ino[d].key = <<>> THEN name ELSE h.ino[d].key \o <<SLASH>> \o name

AddInode(h, d, name, nd) ==
  LET n == Len(h.ino) + 1
      es == h.ino[d].ents
  IN [h EXCEPT !.ino = Append([@ EXCEPT ![d].ents = [c \in DOMAIN es \cup {name} |-> IF c = name THEN n ELSE es[c]]],
                              nd)]

\* mode bits without those of the umask
Masked(m) == (m - (m & UMASK)) % 1024

OpenAt(h, dirfd, path, fl, mode) ==
  LET acc   == fl[1] % 4
      creat == Bit(fl, 6) = 1   excl == Bit(fl, 7) = 1   trunc == Bit(fl, 9) = 1   app == Bit(fl, 10) = 1
      dir   == Bit(fl, 16) = 1  nofollow == Bit(fl, 17) = 1
      r     == At(h, dirfd, path, ~(creat /\ excl) /\ ~nofollow)
      n     == r.ino
  IN IF r.err # 0 THEN Err(h, r.err)
     ELSE IF n = 0
     THEN IF ~creat THEN Err(h, ENOENT)
          ELSE IF ~MayWrite(h, r.dir) THEN Err(h, EACCES)
          ELSE LET h2 == AddInode(h, r.dir, r.name,
                                  Inode("f", JoinKey(h, r.dir, r.name), Masked(mode[1]), <<>>))
               IN OpenInode(h2, Len(h2.ino), acc, app)
     ELSE IF creat /\ excl THEN Err(h, EEXIST)
     ELSE IF h.ino[n].t = "l" THEN Err(h, IF dir THEN ENOTDIR ELSE ELOOP)
     ELSE IF dir /\ h.ino[n].t # "d" THEN Err(h, ENOTDIR)
     ELSE IF h.ino[n].t = "d" /\ (creat \/ acc # 0) THEN Err(h, EISDIR)
     ELSE IF (acc # 1 /\ ~MayRead(h, n)) \/ (acc # 0 /\ ~MayWrite(h, n)) THEN Err(h, EACCES)
     ELSE OpenInode(IF trunc THEN [h EXCEPT !.ino[n].data = <<>>, !.ino[n].head = <<>>, !.ino[n].base = Zero]
                      ELSE h, n, acc, app)

Close(h, g) == IF Lookup(h, g) = 0 THEN Err(h, EBADF) ELSE Ret([h EXCEPT !.fd[g[1] + 1] = 0], 0)

SizeOf(nd) == AddI(nd.base, Len(nd.data))
Size(h, n) == SizeOf(h.ino[n])

Lseek(h, g, ptr, whence) ==
  LET o == Lookup(h, g)
      n == h.ofd[o].ino
      to == CASE whence = Zero -> ptr
              [] whence = One -> Add(h.ofd[o].off, ptr)
              [] OTHER -> Add(ptr, Size(h, n))
  IN IF o = 0 THEN Err(h, EBADF)
     ELSE IF h.ino[n].t = "p" THEN Err(h, IF whence[2] = 0 /\ whence[1] <= 4 THEN ESPIPE ELSE EINVAL)
     ELSE IF whence \notin {Zero, One, <<2, 0, 0, 0>>} THEN Err(h, EINVAL)
     ELSE IF Sign(to) = 1 THEN Err(h, EINVAL)
     ELSE [h |-> [h EXCEPT !.ofd[o].off = to], v |-> to, bytes |-> <<>>]

\* up to len bytes of a file from offset off (a word)
Slice(nd, off, len) ==
  IF ~Ltu(off, SizeOf(nd)) THEN <<>>
  ELSE IF nd.base = Zero
  THEN LET a == Low31(off)
           d == nd.data
       IN SubSeq(d, a + 1, IF len < Len(d) - a THEN a + len ELSE Len(d))
  ELSE LET left == Sub(SizeOf(nd), off)
           n == IF Ltu(left, FromInt(len)) THEN Low31(left) ELSE len
       IN [i \in 1..n |-> LET p == AddI(off, i - 1)
                          IN IF Ltu(p, FromInt(Len(nd.head))) THEN nd.head[Low31(p) + 1]
                             ELSE IF Ltu(p, nd.base) THEN 0
                             ELSE nd.data[Low31(Sub(p, nd.base)) + 1]]

Got(h, bs) == [h |-> h, v |-> FromInt(Len(bs)), bytes |-> bs]

Read(h, g, len) ==
  LET o == Lookup(h, g)
      n == h.ofd[o].ino
  IN IF o = 0 \/ ~h.ofd[o].r THEN Err(h, EBADF)
     ELSE IF h.ino[n].t = "d" THEN Err(h, EISDIR)
     ELSE IF h.ino[n].t = "p"
     THEN LET bs == Slice(h.ino[n], Zero, len)
          IN Got([h EXCEPT !.ino[n].data = SubSeq(@, Len(bs) + 1, Len(@))], bs)
     ELSE LET bs == Slice(h.ino[n], h.ofd[o].off, len)
          IN Got([h EXCEPT !.ofd[o].off = AddI(@, Len(bs))], bs)

Pread(h, g, len, off) ==
  LET o == Lookup(h, g)
      n == h.ofd[o].ino
  IN IF Sign(off) = 1 THEN Err(h, EINVAL)
     ELSE IF o = 0 THEN Err(h, EBADF)
     ELSE IF h.ino[n].t = "p" THEN Err(h, ESPIPE)
     ELSE IF ~h.ofd[o].r THEN Err(h, EBADF)
     ELSE IF h.ino[n].t = "d" THEN Err(h, EISDIR)
     ELSE Got(h, Slice(h.ino[n], off, len))

\* d with bs at offset a, zeroes in between
Splice(d, a, bs) ==
  LET n == Len(d)
  IN (IF a <= n THEN SubSeq(d, 1, a) ELSE d \o [i \in 1..(a - n) |-> 0])
     \o bs \o (IF a + Len(bs) < n THEN SubSeq(d, a + Len(bs) + 1, n) ELSE <<>>)

\* bs at offset a (a word) of a file
FAR == FromInt(4096)
PutFile(nd, a, bs) ==
  IF nd.base = Zero /\ (Ltu(a, SizeOf(nd)) \/ ~Ltu(FAR, Sub(a, SizeOf(nd))))
  THEN [nd EXCEPT !.data = Splice(@, Low31(a), bs)]
  ELSE IF nd.base = Zero THEN [nd EXCEPT !.head = nd.data, !.base = a, !.data = bs]
  ELSE IF ~Ltu(a, nd.base) THEN [nd EXCEPT !.data = Splice(@, Low31(Sub(a, nd.base)), bs)]
  ELSE IF Ltu(a, FAR) THEN [nd EXCEPT !.head = Splice(@, Low31(a), bs)]
  ELSE LET gap == Low31(Sub(nd.base, a))
       IN [nd EXCEPT !.base = a, !.data = Splice([i \in 1..gap |-> 0] \o nd.data, 0, bs)]

Put(h, n, a, bs) == IF bs = <<>> THEN h ELSE [h EXCEPT !.ino[n] = PutFile(@, a, bs)]

Write(h, g, bs) ==
  LET o == Lookup(h, g)
      n == h.ofd[o].ino
      a == IF h.ofd[o].app THEN Size(h, n) ELSE h.ofd[o].off
  IN IF o = 0 \/ ~h.ofd[o].w THEN Err(h, EBADF)
     ELSE IF bs = <<>> THEN Ret(h, 0)
     ELSE Ret([Put(h, n, a, bs) EXCEPT !.ofd[o].off = AddI(a, Len(bs))], Len(bs))

\* Linux: a positioned write to a file opened for appending appends
Pwrite(h, g, bs, off) ==
  LET o == Lookup(h, g)
      n == h.ofd[o].ino
  IN IF Sign(off) = 1 THEN Err(h, EINVAL)
     ELSE IF o = 0 THEN Err(h, EBADF)
     ELSE IF h.ino[n].t = "p" THEN Err(h, ESPIPE)
     ELSE IF ~h.ofd[o].w THEN Err(h, EBADF)
     ELSE Ret(Put(h, n, IF h.ofd[o].app THEN Size(h, n) ELSE off, bs), Len(bs))

(* ---- stat ---- *)

SnapOf(h, n) == LET e == CHOOSE i \in 1..Len(h.snap) : h.snap[i][1] = h.ino[n].key IN h.snap[e]

\* <<key, dev, ino, nlink, mode, uid, gid, rdev, size, blksize, blocks, atime, mtime, ctime>>
LowHigh(lo, hi) == <<lo[1], lo[2], hi[1], hi[2]>>
StatWords(e) ==
  <<e[2], e[3], LowHigh(e[5], e[4]), LowHigh(e[6], e[7]), e[8], Zero, e[9], LowHigh(e[10], Zero), e[11],
    e[12], Zero, e[13], Zero, e[14], Zero, Zero>>

BytesOf(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256,
                w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256>>
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE BytesOf(Head(ws)) \o Flat(Tail(ws))

Stat(h, n) ==
  IF \E i \in 1..Len(h.snap) : h.snap[i][1] = h.ino[n].key
  THEN [h |-> h, v |-> Zero, bytes |-> Flat(StatWords(SnapOf(h, n)))]
  ELSE [h |-> h, v |-> Zero, bytes |-> <<>>]

Fstat(h, g) == IF Lookup(h, g) = 0 THEN Err(h, EBADF) ELSE Stat(h, h.ofd[Lookup(h, g)].ino)

FstatAt(h, dirfd, path, fl) ==
  LET empty == Bit(fl, 12) = 1
      r == At(h, dirfd, path, Bit(fl, 8) = 0)
  IN IF fl[2] # 0 \/ fl[1] \notin {0, 256, 4096, 4352} THEN Err(h, EINVAL)
     ELSE IF empty /\ path = <<>>
     THEN IF ATFDCWD(dirfd) THEN Stat(h, 4) ELSE Fstat(h, dirfd)
     ELSE IF r.err # 0 THEN Err(h, r.err)
     ELSE IF r.ino = 0 THEN Err(h, ENOENT)
     ELSE Stat(h, r.ino)

(* does a recorded snapshot fit the file system of the model? *)
TypeBits(t) == CASE t = "f" -> 8 [] t = "d" -> 4 [] t = "l" -> 10 [] t = "p" -> 1
SnapFits(h, e) ==
  \E n \in 1..Len(h.ino) :
    /\ h.ino[n].key = e[1]
    /\ e[5][1] \div 4096 = TypeBits(h.ino[n].t)
    /\ h.ino[n].t = "f" => e[9] = Size(h, n) /\ (n > 4 => e[4] = One)
    /\ n > 4 /\ h.ino[n].t # "l" => e[5][1] % 4096 = h.ino[n].mode
SnapOk(h) == /\ \A i \in 1..Len(h.snap) : SnapFits(h, h.snap[i])
             /\ {h.snap[i][1] : i \in 1..Len(h.snap)} = {h.ino[n].key : n \in 1..Len(h.ino)}

(* ---- the argument vector ---- *)

RECURSIVE StringsOf(_)
StringsOf(as) == IF as = <<>> THEN <<>> ELSE Head(as) \o <<0>> \o StringsOf(Tail(as))

\* argc, argv (to the strings that follow), NULL, no environment, NULL
MainVars(as, dst) ==
  LET n == Len(as)
      before(k) == Len(StringsOf(SubSeq(as, 1, k - 1)))
      ptrs == [k \in 1..n |-> AddI(dst, 8 * (n + 3) + before(k))]
  IN Flat(<<FromInt(n)>> \o ptrs \o <<Zero, Zero>>) \o StringsOf(as)

(* ---------------------------------------------------------------------- *)
(* the mailbox                                                            *)
(* ---------------------------------------------------------------------- *)

GuestBytes(s, a, n) ==
  LET o == 2 * HalfIx(s, a) + (a[1] % 2)
  IN TLCEval([i \in 1..n |-> LET h == MemHalf(s.mem, (o + i - 1) \div 2)
                             IN IF (o + i) % 2 = 1 THEN h % 256 ELSE h \div 256])

PutBytes(s, a, bs) ==
  IF bs = <<>> THEN s
  ELSE LET o    == 2 * HalfIx(s, a) + (a[1] % 2)
           k    == o \div 2
           last == (o + Len(bs) - 1) \div 2
           \* the byte at offset q, old the halfword that was there
           Is(q, old) == IF q >= o /\ q < o + Len(bs) THEN bs[q - o + 1] ELSE old
           hs   == TLCEval([i \in 1..(last - k + 1) |->
                      LET h == MemHalf(s.mem, k + i - 1)
                          q == 2 * (k + i - 1)
                      IN Is(q, (h % 256)) + 256 * Is(q + 1, h \div 256)])
       IN [s EXCEPT !.mem = PutHalves(@, k, hs), !.wr = @ \cup (k..last)]

\* a path argument ends at the first NUL within its length
GuestPath(s, a, n) ==
  LET bs == GuestBytes(s, a, n)
      ends == {i \in 1..n : bs[i] = 0}
  IN IF ends = {} THEN bs ELSE SubSeq(bs, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)

\* what reaches the standard output also shows on the console
Console(s, r, g, bs) ==
  LET o == Lookup(s.host, g)
  IN IF o # 0 /\ s.host.ofd[o].ino = 2 /\ Sign(r.v) = 0 THEN [s EXCEPT !.host = r.h, !.out = @ \o bs]
     ELSE [s EXCEPT !.host = r.h]

\* perform system call a[1] with arguments a[2..]: [s, v]
Call(s, a) ==
  LET h == s.host
      id == a[1][1]
      Len3 == Low31(a[4])
      Plain(r) == [s |-> [s EXCEPT !.host = r.h], v |-> r.v]
      Into(r, dst) == [s |-> PutBytes([s EXCEPT !.host = r.h], dst, r.bytes), v |-> r.v]
  IN CASE id = 56 -> Plain(OpenAt(h, a[2], GuestPath(s, a[3], Low31(a[4])), a[5], a[6]))
       [] id = 57 -> Plain(Close(h, a[2]))
       [] id = 62 -> Plain(Lseek(h, a[2], a[3], ZExtH(a[4])))
       [] id = 63 -> Into(Read(h, a[2], Len3), a[3])
       [] id = 64 -> LET bs == GuestBytes(s, a[3], Len3)
                         r == Write(h, a[2], bs)
                     IN [s |-> Console(s, r, a[2], bs), v |-> r.v]
       [] id = 67 -> Into(Pread(h, a[2], Len3, a[5]), a[3])
       [] id = 68 -> LET bs == GuestBytes(s, a[3], Len3)
                         r == Pwrite(h, a[2], bs, a[5])
                     IN [s |-> Console(s, r, a[2], bs), v |-> r.v]
       [] id = 79 -> Into(FstatAt(h, a[2], GuestPath(s, a[3], Low31(a[4])), a[6]), a[5])
       [] id = 80 -> Into(Fstat(h, a[2]), a[3])
       [] id = 93 -> [s |-> [s EXCEPT !.host.exit = a[2][1] % 256], v |-> Zero]
       [] id = 2011 -> LET bs == MainVars(s.cf.args, a[2])
                       IN IF Ltu(a[3], FromInt(Len(bs))) THEN [s |-> s, v |-> FromInt(-ENOMEM)]
                          ELSE [s |-> PutBytes(s, a[2], bs), v |-> Zero]

(* the guest has left a request: it is taken, performed, and answered *)
Request(s, req) ==
  LET s1 == TLCEval(DramStore(s, s.cf.tohost, 8, Zero))
      at == <<req[1], req[2], req[3], 0>>
      k  == HalfIx(s1, at)
      args == TLCEval([i \in 1..8 |-> [j \in 1..4 |-> MemHalf(s1.mem, k + 4 * (i - 1) + j - 1)]])
      r  == TLCEval(Call(s1, args))
      back == r.v \o args[2] \o args[3] \o args[4] \o args[5] \o args[6] \o args[7] \o args[8]
      s2 == [r.s EXCEPT !.mem = PutHalves(@, k, back), !.wr = @ \cup (k..(k + 31))]
      from == s.cf.fromhost
  IN IF req[1] % 2 = 1 THEN [s1 EXCEPT !.host.exit = req[1] % 256]
     ELSE IF r.s.host.exit >= 0 THEN r.s
     ELSE IF DramLoad(s2, from, 8) # Zero THEN s2
     ELSE DramStore(s2, from, 8, <<req[1] + 1, 0, 0, 0>>)

HostTurn(s) ==
  IF ~s.cf.htif THEN s
  ELSE IF DramLoad(s, s.cf.tohost, 4) = Zero THEN s
  ELSE Request(s, DramLoad(s, s.cf.tohost, 8))
=============================================================================
