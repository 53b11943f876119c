--------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Trace validation: executes the specification along recorded traces of   *)
(* the real emulator and compares every observation.                       *)
(*                                                                         *)
(* A scenario is a sequence of events:                                     *)
(*   P  the environment sets state (both sides apply it)                   *)
(*   S  one iteration of the loop; the differences it made are recorded    *)
(*   J  n iterations that stay at one self-jump                            *)
(*   O  the whole observable state (also of the fresh machine)             *)
(*   F  all nonzero DRAM outside the windows watched during S              *)
(*   E  an iteration in which the process exited, and its status           *)
(*   H  the contents of all files of the host at the end                   *)
(*   R  n steps that were not observed, until the process exits            *)
(*   B  what the process printed, and its status                           *)
(*   T  the boot ROM's hand-over and the device tree in it                   *)
(*   I  what an inspection option printed about a file                     *)
(*   C  what came of a command line                                        *)
(*   X  the emulator panicked or was killed: never allowed                 *)
(* All scenarios are initial states; a deviation prints a MISMATCH line    *)
(* and ends its scenario.                                                  *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

LOCAL INSTANCE SequencesExt

Elf == INSTANCE Elf
Fdt == INSTANCE Fdt
Insp == INSTANCE Inspect
Log == INSTANCE Log
Cmd == INSTANCE CmdLine

Scen == ndJsonDeserialize(IOEnv.TRACE)
Recorded == ndJsonDeserialize(IOEnv.CONFIGS)
Used == {Scen[k].cf : k \in 1..Len(Scen)}
\* (evaluated once, in Init)
AllConfigs == LET all == TLCEval(Recorded)
                  used == TLCEval(Used)
              IN TLCEval([c \in used |-> TLCEval(Elf!Configure(TLCEval(Cmd!Understood(all[c]))))])
AllAsks == LET all == TLCEval(Recorded)
               used == TLCEval(Used)
           IN TLCEval([c \in used |-> TLCEval(Cmd!Ask(all[c].argv))])

Configs == TLCGet(1)
Asks == TLCGet(2)

VARIABLES sid, i, s, ok,
          age         \* iterations so far, where they are counted
vars == <<sid, i, s, ok, age>>

(* the host as the scenario sets it up: files <<path, type, mode, data>>, parents first *)
RECURSIVE WithFiles(_, _)
WithFiles(h, fs) ==
  IF fs = <<>> THEN h
  ELSE LET f == Head(fs)
           cs == Components(f[1])
           d == IF Len(cs) = 1 THEN 4 ELSE Resolve([h EXCEPT !.uid = 0], 4, SubSeq(cs, 1, Len(cs) - 1), TRUE, 0).ino
       IN WithFiles(AddInode(h, d, cs[Len(cs)], Inode(f[2], f[1], f[3], f[4])), Tail(fs))

Start(sc) ==
  LET r == Reset(Configs[sc.cf])
  IN IF "fs" \notin DOMAIN sc THEN r
     ELSE [r EXCEPT !.host = WithFiles([NoHost EXCEPT !.uid = sc.uid, !.ino[1].data = sc.stdin,
                                                      !.ino[1].t = IF sc.pipe = 1 THEN "p" ELSE "f"], sc.fs)]

Init == /\ TLCSet(1, AllConfigs)
        /\ TLCSet(2, AllAsks)
        /\ sid \in 1..Len(Scen)
        /\ i = 0
        /\ s = Start(Scen[sid])
        /\ ok = TRUE
        /\ age = 0

(* ---- applying pokes ---- *)

RECURSIVE PokeX(_, _)
PokeX(t, l) == IF l = <<>> THEN t ELSE PokeX(SetX(t, Head(l)[1], Head(l)[2]), Tail(l))
RECURSIVE PokeCsr(_, _)
PokeCsr(t, l) == IF l = <<>> THEN t ELSE PokeCsr(WriteCsr(t, Head(l)[1], Head(l)[2]), Tail(l))
RECURSIVE PokeClint(_, _)
PokeClint(t, l) ==
  IF l = <<>> THEN t
  ELSE PokeClint([t EXCEPT !.clint = PutDW(@, Head(l)[1] \div 8, Head(l)[2])], Tail(l))
RECURSIVE PokeMem(_, _)
PokeMem(m, l) == IF l = <<>> THEN m ELSE PokeMem(PutHalves(m, Head(l)[1], Head(l)[2]), Tail(l))

RECURSIVE PokeLevel(_, _)
PokeLevel(p, l) == IF l = <<>> THEN p ELSE PokeLevel(Plic!SetLevel(p, Head(l)[1], Head(l)[2] # 0), Tail(l))

Poke(t, e) ==
  LET t1 == IF e.pc = <<>> THEN t ELSE [t EXCEPT !.pc = e.pc]
      t2 == IF e.prv < 0 THEN t1 ELSE [t1 EXCEPT !.prv = e.prv]
      t3 == PokeCsr(PokeX(t2, e.x), e.csr)
      t4 == PokeClint(t3, e.cl)
  IN [t4 EXCEPT !.mem = PokeMem(@, e.mem), !.inq = @ \o e.in, !.plic = PokeLevel(@, e.lv)]

(* ---- comparing ---- *)

InWin(w, k) == \E j \in 1..Len(w) : k >= w[j][1] /\ k < w[j][1] + w[j][2]

\* entries of a recorded list [[index, value], ...] that differ from Val(index)
Wrong(l, Val(_)) == {j \in 1..Len(l) : l[j][2] # Val(l[j][1])}
Listed(l) == {l[j][1] : j \in 1..Len(l)}

Report(what, l, Val(_), missing) ==
  LET w == Wrong(l, Val)
  IN PrintT(<<"MISMATCH", Scen[sid].id, i + 1, what,
              {<<l[j][1], "real", l[j][2], "spec", Val(l[j][1])>> : j \in w},
              {<<k, "real unchanged", "spec", Val(k)>> : k \in missing}>>)

Same(what, real, spec) ==
  IF real = spec THEN TRUE
  ELSE PrintT(<<"MISMATCH", Scen[sid].id, i + 1, what, "real", real, "spec", spec>>) /\ FALSE

\* the bytes of b are in a, in this order
Within(b, a) == FoldLeft(LAMBDA k, x : IF k < Len(b) /\ b[k + 1] = x THEN k + 1 ELSE k, 0, a) = Len(b)

\* what was printed; the log (1, 3) adds text to it, or (2) it was not recorded
SamePrinted(what, real, spec) ==
  CASE s.cf.log = 2 -> TRUE
    [] s.cf.log \in {1, 3} /\ Within(spec, real) -> TRUE
    [] OTHER -> Same(what, real, spec)

\* what is logged of the n iterations from t to u
RECURSIVE Times(_, _)
Times(l, n) == IF n = 0 THEN <<>> ELSE l \o Times(l, n - 1)
LogOk(t, u, e) ==
  \/ s.cf.log # 3
  \/ LET lv == s.cf.level
         one == Log!Expected(lv, t, u, age + e.n)
     IN Same("log", Log!Recorded(lv, e.out), IF one = <<>> THEN one ELSE Times(one, e.n))

\* l lists exactly the indices in must (and perhaps others), with the right values
Match(what, l, Val(_), must) ==
  IF Wrong(l, Val) = {} /\ must \subseteq Listed(l) THEN TRUE
  ELSE Report(what, l, Val, must \ Listed(l)) /\ FALSE

Changed(t, u) ==      \* CSR addresses whose value differs between t and u
  IF t.csr = u.csr THEN {}
  ELSE {a \in (DOMAIN u.csr) \cup Views : ReadCsr(t, a) # ReadCsr(u, a)}

\* device registers that can be read without side effects
PlReg(p, r) == CASE r \in 1..31 -> FromInt(p.pri[r])
                 [] r \in {32, 33} -> BitsOf(p.en[r - 31])
                 [] r \in {34, 35} -> FromInt(p.thr[r - 33])
UaReg(u, r) == Uart!Read(u, r).v
UaRegs(u) == 1..7 \cup DOMAIN u.ext

CmpDev(t, u, e) ==
  LET cv(k) == ClintDW(u.clint, k)
      pv(r) == PlReg(u.plic, r)
      av(r) == UaReg(u.uart, r)
  IN /\ Match("clint", e.cl, cv, IF t.clint = u.clint THEN {}
                                ELSE {k \in DOMAIN u.clint : ClintDW(t.clint, k) # cv(k)})
     /\ Match("plic", e.pl, pv, IF t.plic = u.plic THEN {} ELSE {r \in 1..35 : PlReg(t.plic, r) # pv(r)})
     /\ Match("uart", e.ua, av, IF t.uart = u.uart THEN {}
                                ELSE {r \in UaRegs(u.uart) : UaReg(t.uart, r) # av(r)})

\* the latest snapshot of the host's files fits the model's files
CmpHost(t, u) ==
  IF t.host = u.host \/ u.host.snap = <<>> \/ SnapOk(u.host) THEN TRUE
  ELSE PrintT(<<"MISMATCH", Scen[sid].id, i + 1, "host files", "real", u.host.snap, "spec", u.host.ino>>) /\ FALSE

CmpFiles(u, e) ==
  \A n \in 1..Len(u.host.ino) :
    u.host.ino[n].t = "f" /\ (n # 2 \/ u.cf.log # 3) =>
      LET k == {j \in 1..Len(e.files) : e.files[j][1] = u.host.ino[n].key}
          nd == u.host.ino[n]
          far == ~Ltu(SizeOf(nd), FromInt(65536))
      IN Same(<<"contents", nd.key>>, {<<e.files[j][2], e.files[j][3], e.files[j][4]>> : j \in k},
              {<<SizeOf(nd), IF far THEN Slice(nd, Zero, 1024) ELSE nd.data,
                 IF far THEN Slice(nd, AddI(SizeOf(nd), -1024), 1024) ELSE <<>> >>})

CmpStep(t, u, e, w) ==
  LET xv(r) == u.x[r]
      cv(a) == ReadCsr(u, a)
      mv(k) == MemHalf(u.mem, k)
  IN /\ Same("pc", e.pc, u.pc)
     /\ Same("prv", e.prv, u.prv)
     /\ Match("x", e.x, xv, IF t.x = u.x THEN {} ELSE {r \in 1..31 : t.x[r] # u.x[r]})
     /\ Match("csr", e.csr, cv, Changed(t, u))
     /\ Match("mem", e.mem, mv, {k \in u.wr : InWin(w, k) /\ MemHalf(t.mem, k) # MemHalf(u.mem, k)})
     /\ SamePrinted("out", e.out, u.out)
     /\ LogOk(t, u, e)
     /\ Same("exit", -1, u.host.exit)
     /\ CmpDev(t, u, e)
     /\ CmpHost(t, u)

CmpAll(u, e, w) ==
  LET xv(r) == u.x[r]
      cv(a) == ReadCsr(u, a)
      mv(k) == MemHalf(u.mem, k)
      over == UNION {{64 * b + j : j \in 0..63} : b \in {b \in DOMAIN u.mem : u.mem[b] # ZeroBlock}}
  IN /\ Same("pc", e.pc, u.pc)
     /\ Same("prv", e.prv, u.prv)
     /\ Match("x", e.x, xv, {r \in 1..31 : u.x[r] # Zero})
     /\ Match("csr", e.csr, cv, {a \in (DOMAIN u.csr) \cup Views : ReadCsr(u, a) # Zero})
     /\ Match("mem", e.mem, mv, {k \in over : InWin(w, k) /\ MemHalf(u.mem, k) # 0})
     /\ LET dv(k) == ClintDW(u.clint, k)
            pv(r) == PlReg(u.plic, r)
            av(r) == UaReg(u.uart, r)
        IN /\ Match("clint", e.cl, dv, {k \in DOMAIN u.clint : dv(k) # Zero})
           /\ Match("plic", e.pl, pv, {r \in 1..35 : pv(r) # Zero})
           /\ Match("uart", e.ua, av, {r \in UaRegs(u.uart) : av(r) # 0})

CmpFinal(u, e, w) ==
  LET mv(k) == MemHalf(u.mem, k)
      over == UNION {{64 * b + j : j \in 0..63} : b \in {b \in DOMAIN u.mem : u.mem[b] # ZeroBlock}}
  IN Match("final mem", e.mem, mv, {k \in over : ~InWin(w, k) /\ MemHalf(u.mem, k) # 0})

\* what the host said about its files right after the step
\* (the log makes the standard output longer)
Looked(t, e) ==
  LET longer(x) == t.cf.log = 3 /\ x[1] = t.host.ino[2].key
  IN IF "st" \in DOMAIN e
     THEN [t EXCEPT !.host.snap = [k \in 1..Len(e.st) |-> IF longer(e.st[k]) THEN [e.st[k] EXCEPT ![9] = Size(t.host, 2)] ELSE e.st[k]]]
     ELSE t

\* the boot ROM enters the program in M-mode, with a0 = 0 (the hart) and a1 = the address of the device tree
BootDeviations(c) ==
  LET RECURSIVE Go(_, _)
      Go(t, n) == IF n = 0 \/ InDram(t, t.pc) THEN t ELSE Go(TLCEval(OneCycle(t)), n - 1)
      t == Go(Reset([c EXCEPT !.pc = FromInt(ROMBASE)]), 64)
      a0 == t.x[10]
      a1 == t.x[11]
  IN IF t.pc # c.base \/ t.prv # 3 \/ a0 # Zero THEN {<<"enters", t.pc, "mode", t.prv, "a0", a0>>}
     ELSE IF ~InRom(t, a1) \/ a1[1] % 8 # 0 THEN {<<"a1", a1>>}
     ELSE Fdt!TreeDeviations(c.rom, a1[1] - ROMBASE, c)

\* an inspection option prints the headers and contents, and nothing is run; what is no ELF file is refused
Inspected(e) ==
  IF Elf!IsElf(s.cf.file)
  THEN /\ Same("status", <<e.banner, e.status>>, <<"ok", 0>>)
       /\ Same(<<"line, printed, expected", e.opt>>, Insp!Deviation(s.cf.file, e.opt, e.lines), <<>>)
  ELSE Same("accepted", e.banner = "ok" \/ e.status = 0 \/ e.status < -99, FALSE)

\* a command line: refused, or explained, or a file inspected, or a program run with all that belongs to it
\* (the program's output begins with the byte 7)
Commanded(e) ==
  LET a == Asks[Scen[sid].cf]
      r == Recorded[Scen[sid].cf]
      banner == <<10>> \o Cmd!Bytes("In file " \o a.name) \o <<10>> \o Cmd!Bytes("elfcheck: OK") \o <<10, 10>>
      quiet == 7 \notin {e.out[k] : k \in 1..Len(e.out)}
      upto(n) == SubSeq(e.out, 1, IF n < Len(e.out) THEN n ELSE Len(e.out))
      after == SubSeq(e.out, Len(banner) + 1, Len(e.out))
      early == Log!Lines(SubSeq(upto(Len(banner) + 1500), Len(banner) + 1, Len(upto(Len(banner) + 1500))))
      pcs == \E k \in 1..Len(early) : Log!Starts(early[k], "pc: 0x")
      dump == \E k \in 1..Len(early) : Log!IsDump(early[k])
      bad == a.what = "no" \/ (a.what # "about" /\ (IF Cmd!There(r, a.main) THEN ~Elf!IsElf(Cmd!Contents(r, a.main)) ELSE TRUE))
  IN CASE bad ->
            Same("accepted", quiet /\ e.status > 0, TRUE)
       [] a.what = "about" -> Same("run", quiet /\ e.status = 0, TRUE)
       [] a.what = "run" /\ Cmd!Missing(r, a) -> Same("accepted", quiet /\ e.status > 0, TRUE)
       [] OTHER ->
            /\ Same("banner", upto(Len(banner)), banner)
            /\ IF a.what = "run"
               THEN /\ Same("status", e.status, s.host.exit)
                    /\ IF a.level \in {"nolog", "diff"} THEN Same("printed", after, s.log)
                       ELSE Same("printed", Within(s.log, after), TRUE)
                    /\ Same(<<"log", a.level>>, <<pcs, dump>>,
                            <<a.level \in {"info", "debug", "trace"}, a.level \in {"debug", "trace"}>>)
               ELSE /\ Same("status", e.status, 0)
                    /\ Same(<<"line, printed, expected", a.what>>, Insp!Deviation(s.cf.file, a.what, e.lines), <<>>)

Event(e, w) ==
  CASE e.k = "I" -> s' = s /\ ok' = Inspected(e)
    [] e.k = "C" -> s' = s /\ ok' = Commanded(e)
    [] e.k = "H" -> s' = s /\ ok' = CmpFiles(s, e)
    [] e.k = "T" -> s' = s /\ ok' = Same("boot", BootDeviations(s.cf), {})
    [] e.k = "E" -> s' = Step(s) /\ ok' = Same("exit", e.status, s'.host.exit)
    [] e.k = "P" -> s' = Poke(s, e) /\ ok' = TRUE
    [] e.k = "S" -> s' = Step(Looked(s, e)) /\ ok' = CmpStep(s, s', e, w)
    [] e.k = "R" -> s' = RunOn(s, e.n) /\ ok' = TRUE
    [] e.k = "B" -> s' = s /\ ok' = (Same("status", e.status, s.host.exit) /\ SamePrinted("printed", e.out, s.log))
    [] e.k = "J" -> s' = Spin(s, e.n) /\ ok' = (Same("spin", s'.pc, s.pc) /\ CmpStep(s, s', e, w))
    [] e.k = "O" -> s' = Looked(s, e) /\ ok' = CmpAll(s', e, w)
    [] e.k = "F" -> s' = s /\ ok' = CmpFinal(s, e, w)
    [] e.k = "X" -> s' = s /\ ok' = (PrintT(<<"MISMATCH", Scen[sid].id, i + 1, "crash", e.msg>>) /\ FALSE)

Next == /\ ok
        /\ i < Len(Scen[sid].ev)
        /\ Event(Scen[sid].ev[i + 1], Scen[sid].win)
        /\ i' = i + 1
        /\ sid' = sid
        /\ age' = IF Scen[sid].ev[i + 1].k \in {"S", "J"} THEN age + Scen[sid].ev[i + 1].n ELSE age

View == <<sid, i>>
=============================================================================
