----------------------------------- MODULE Fdt -----------------------------------
(***************************************************************************)
(* The flattened device tree in the boot ROM: what makes it well formed    *)
(* (devicetree specification, chapter 5) and what it must say about the    *)
(* machine.                                                                *)
(*                                                                         *)
(* A parsed tree is a sequence of nodes [path, props] in the order of the  *)
(* blob; path is the sequence of node names (byte sequences) from the      *)
(* root, props a sequence of <<name, value>> (byte sequences).             *)
(***************************************************************************)
EXTENDS Word, FiniteSets, TLC

\* text as bytes
ALPHA == "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(ch) ==
  LET i == CHOOSE i \in 1..Len(ALPHA) : SubSeq(ALPHA, i, i) = ch
  IN IF i = 1 THEN 9 ELSE IF i <= 3 THEN 30 + i
     ELSE IF i <= 60 THEN 31 + i ELSE 32 + i
T(str) == [i \in 1..Len(str) |-> Code(SubSeq(str, i, i))]

\* n bytes from offset o
Bytes(b, o, n) == SubSeq(b, o + 1, o + n)
\* a big-endian word, as <<high, low>> halves
BE(b, o) == <<256 * b[o + 1] + b[o + 2], 256 * b[o + 3] + b[o + 4]>>
\* ... known to be small
BEI(b, o) == BE(b, o)[1] * 65536 + BE(b, o)[2]

\* length of the NUL-terminated string at o (which ends before e), or -1
StrLen(b, o, e) ==
  LET z == {i \in o..(e - 1) : b[i + 1] = 0}
  IN IF z = {} THEN -1 ELSE (CHOOSE i \in z : \A j \in z : i <= j) - o

Pad4(n) == ((n + 3) \div 4) * 4

(* ---- the blob ---- *)

Magic(b) == BE(b, 0) = <<53261, 65261>>            \* d00dfeed
TotalSize(b) == BEI(b, 4)
StructOff(b) == BEI(b, 8)
StringsOff(b) == BEI(b, 12)
RsvOff(b) == BEI(b, 16)
StringsSize(b) == BEI(b, 32)
StructSize(b) == BEI(b, 36)

\* every field that should be small is
SmallFields(b) == \A o \in {4, 8, 12, 16, 20, 24, 28, 32, 36} : BE(b, o)[1] < 16

HeaderOk(b) ==
  /\ Len(b) >= 40 /\ Magic(b) /\ SmallFields(b)
  /\ TotalSize(b) <= Len(b)
  /\ BEI(b, 20) = 17 /\ BEI(b, 24) = 16 /\ BEI(b, 28) = 0
  /\ RsvOff(b) % 8 = 0 /\ StructOff(b) % 4 = 0 /\ StructSize(b) % 4 = 0
  /\ RsvOff(b) >= 40
  \* the blocks follow each other: reservations, structure, strings
  /\ RsvOff(b) + 16 <= StructOff(b)
  /\ StructOff(b) + StructSize(b) <= StringsOff(b)
  /\ StringsOff(b) + StringsSize(b) <= TotalSize(b)
  \* nothing is reserved
  /\ \A i \in 1..16 : b[RsvOff(b) + i] = 0

Bad(o) == [ok |-> FALSE, at |-> o, nodes |-> <<>>]

\* o: offset of the next token; path: the open nodes, as indices into nodes; closed: a child of the
\* innermost one has been closed
RECURSIVE Walk(_, _, _, _, _)
Walk(b, o, open, nodes, closed) ==
  LET e == StructOff(b) + StructSize(b)
      tok == BE(b, o)
      cur == nodes[open[Len(open)]]
  IN IF o + 4 > e \/ tok[1] # 0 THEN Bad(o)
     ELSE CASE tok[2] = 4 -> Walk(b, o + 4, open, nodes, closed)                  \* FDT_NOP
            [] tok[2] = 1 ->                                                      \* FDT_BEGIN_NODE
                 LET n == StrLen(b, o + 4, e)
                     name == Bytes(b, o + 4, n)
                     path == IF open = <<>> THEN <<>> ELSE Append(cur.path, name)
                 IN IF n < 0 \/ (open = <<>> /\ (nodes # <<>> \/ n > 0)) \/ (open # <<>> /\ n = 0) THEN Bad(o)
                    ELSE IF \E i \in 1..Len(nodes) : nodes[i].path = path THEN Bad(o)
                    ELSE Walk(b, TLCEval(o + 4 + Pad4(n + 1)), Append(open, Len(nodes) + 1),
                              TLCEval(Append(nodes, [path |-> path, props |-> <<>>])), FALSE)
            [] tok[2] = 2 ->                                                      \* FDT_END_NODE
                 IF open = <<>> THEN Bad(o)
                 ELSE Walk(b, o + 4, SubSeq(open, 1, Len(open) - 1), nodes, TRUE)
            [] tok[2] = 3 ->                                                      \* FDT_PROP
                 IF open = <<>> \/ closed \/ o + 12 > e \/ BE(b, o + 4)[1] # 0 \/ BE(b, o + 8)[1] # 0 THEN Bad(o)
                 ELSE LET len == BEI(b, o + 4)
                          no  == BEI(b, o + 8)
                          se  == StringsOff(b) + StringsSize(b)
                          nl  == IF no >= StringsSize(b) THEN -1 ELSE StrLen(b, StringsOff(b) + no, se)
                          nm  == Bytes(b, StringsOff(b) + no, nl)
                      IN IF nl <= 0 \/ o + 12 + Pad4(len) > e
                            \/ (\E i \in 1..Len(cur.props) : cur.props[i][1] = nm) THEN Bad(o)
                         ELSE Walk(b, TLCEval(o + 12 + Pad4(len)), open,
                                   TLCEval([nodes EXCEPT ![open[Len(open)]].props = Append(@, <<nm, Bytes(b, o + 12, len)>>)]), FALSE)
            [] tok[2] = 9 ->                                                      \* FDT_END
                 IF open # <<>> \/ nodes = <<>> \/ o + 4 # e THEN Bad(o) ELSE [ok |-> TRUE, at |-> o, nodes |-> nodes]
            [] OTHER -> Bad(o)

Parse(b) == IF ~HeaderOk(b) THEN Bad(0) ELSE Walk(b, StructOff(b), <<>>, <<>>, FALSE)

(* ---- reading a tree ---- *)

Has(n, p) == \E i \in 1..Len(n.props) : n.props[i][1] = T(p)
Get(n, p) == n.props[CHOOSE i \in 1..Len(n.props) : n.props[i][1] = T(p)][2]
Cells(v) == [i \in 1..(Len(v) \div 4) |-> BE(v, 4 * (i - 1))]
Cell(n) == <<0, n>>
IsText(n, p, str) == Has(n, p) /\ Get(n, p) = Append(T(str), 0)
IsCells(n, p, cs) == Has(n, p) /\ Len(Get(n, p)) = 4 * Len(cs) /\ Cells(Get(n, p)) = cs
IsFlag(n, p) == Has(n, p) /\ Get(n, p) = <<>>

\* a list of strings that contains str
Lists(n, p, str) ==
  /\ Has(n, p)
  /\ LET v == Get(n, p)
         t == Append(T(str), 0)
     IN /\ v # <<>> /\ v[Len(v)] = 0
        /\ \E i \in 0..(Len(v) - Len(t)) : /\ SubSeq(v, i + 1, i + Len(t)) = t
                                           /\ i = 0 \/ v[i] = 0

\* the nodes with a property
With(t, Pred(_)) == {i \in 1..Len(t) : Pred(t[i])}
Only(t, Pred(_)) == t[CHOOSE i \in 1..Len(t) : Pred(t[i])]
One1(t, Pred(_)) == Cardinality(With(t, Pred)) = 1

\* a number of one or two cells, as a machine word
Number(v) == IF Len(v) = 4 THEN LET c == Cells(v)[1] IN <<c[2], c[1], 0, 0>>
             ELSE LET c == Cells(v) IN <<c[2][2], c[2][1], c[1][2], c[1][1]>>
IsNumber(n, p, w) == Has(n, p) /\ Len(Get(n, p)) \in {4, 8} /\ Number(Get(n, p)) = w

\* the cells of a 64-bit number
TwoCells(w) == <<<<w[4], w[3]>>, <<w[2], w[1]>>>>

(* ---- what the tree must say: machine m = [rv, base, initrd (length)] ---- *)

Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexOf(_, _)
HexOf(w, k) ==           \* the lowest k digits of w
  IF k = 0 THEN <<>> ELSE Append(HexOf(<<w[1] \div 16 + 4096 * (w[2] % 16), w[2] \div 16 + 4096 * (w[3] % 16),
                                         w[3] \div 16 + 4096 * (w[4] % 16), w[4] \div 16>>, k - 1), Hex(w[1] % 16))
Digits(w) == LET h == HexOf(w, 16)
                 nz == {i \in 1..16 : h[i] # 48}
             IN IF nz = {} THEN <<48>> ELSE SubSeq(h, CHOOSE i \in nz : \A j \in nz : i <= j, 16)

\* a node name with a unit address gives the first address of reg
Parent(t, n) == Only(t, LAMBDA q : q.path = SubSeq(n.path, 1, Len(n.path) - 1))
UnitOk(t, n) ==
  LET name == n.path[Len(n.path)]
      at == {i \in 1..Len(name) : name[i] = 64}
      i == CHOOSE i \in at : TRUE
      ac == IF Has(Parent(t, n), "#address-cells") THEN Cells(Get(Parent(t, n), "#address-cells"))[1][2] ELSE 2
      v == Cells(Get(n, "reg"))
  IN at # {} => /\ Has(n, "reg") /\ Len(v) >= ac
                /\ SubSeq(name, i + 1, Len(name)) =
                     Digits(IF ac = 2 THEN <<v[2][2], v[2][1], v[1][2], v[1][1]>> ELSE <<v[1][2], v[1][1], 0, 0>>)

PHandle(n) == Cells(Get(n, "phandle"))[1]

IsRoot(n) == n.path = <<>>
Named(n, name) == n.path = <<T(name)>>
IsCpu(n) == IsText(n, "device_type", "cpu")
IsMem(n) == IsText(n, "device_type", "memory")
IsIntc(n) == Lists(n, "compatible", "riscv,cpu-intc")
IsClint(n) == Lists(n, "compatible", "riscv,clint0")
IsPlic(n) == Lists(n, "compatible", "riscv,plic0")
IsUart(n) == Lists(n, "compatible", "ns16550a")

Under(n, p) == Len(n.path) = Len(p.path) + 1 /\ SubSeq(n.path, 1, Len(p.path)) = p.path

\* the value of stdout-path: the path of a node
RECURSIVE Joined(_)
Joined(p) == IF p = <<>> THEN <<>> ELSE <<47>> \o Head(p) \o Joined(Tail(p))

INITRDEND == <<61440, 32767, 0, 0>>            \* 2 GiB - 4096, from the beginning of DRAM

\* the facts that do not hold
Wrong(t, m) ==
  LET root == Only(t, IsRoot)
      cpu  == Only(t, IsCpu)       mem  == Only(t, IsMem)      intc == Only(t, IsIntc)
      clint == Only(t, IsClint)    plic == Only(t, IsPlic)     uart == Only(t, IsUart)
      chosen == Only(t, LAMBDA n : Named(n, "chosen"))
      cpus == Only(t, LAMBDA n : Named(n, "cpus"))
      bus == Parent(t, uart)
      hi == PHandle(intc)
      end == IF m.initrd = 0 THEN Zero ELSE Add(m.base, INITRDEND)
      start == IF m.initrd = 0 THEN Zero ELSE AddI(end, -m.initrd)
      ph == {i \in 1..Len(t) : Has(t[i], "phandle")}
      F == <<
        <<"one node each", One1(t, IsCpu) /\ One1(t, IsMem) /\ One1(t, IsIntc) /\ One1(t, IsClint) /\ One1(t, IsPlic)
                           /\ One1(t, IsUart) /\ One1(t, LAMBDA n : Named(n, "chosen")) /\ One1(t, LAMBDA n : Named(n, "cpus"))>>>>
      G == <<
        <<"root cells", IsCells(root, "#address-cells", <<Cell(2)>>) /\ IsCells(root, "#size-cells", <<Cell(2)>>)>>,
        <<"cpus cells", IsCells(cpus, "#address-cells", <<Cell(1)>>) /\ IsCells(cpus, "#size-cells", <<Cell(0)>>)>>,
        <<"timebase", Has(cpus, "timebase-frequency") /\ Len(Get(cpus, "timebase-frequency")) = 4>>,
        <<"cpu", Under(cpu, cpus) /\ IsCells(cpu, "reg", <<Cell(0)>>) /\ Lists(cpu, "compatible", "riscv")
                 /\ IsText(cpu, "status", "okay")>>,
        <<"isa", IsText(cpu, "riscv,isa", IF m.rv = 32 THEN "rv32imac" ELSE "rv64imac")>>,
        <<"mmu-type", IsText(cpu, "mmu-type", IF m.rv = 32 THEN "riscv,sv32" ELSE "riscv,sv39")>>,
        <<"cpu interrupt controller", Under(intc, cpu) /\ IsCells(intc, "#interrupt-cells", <<Cell(1)>>)
                                      /\ IsFlag(intc, "interrupt-controller")>>,
        <<"memory", Len(mem.path) = 1 /\ IsCells(mem, "reg", TwoCells(m.base) \o <<Cell(0), <<32768, 0>>>>)>>,
        <<"bus", Lists(bus, "compatible", "simple-bus") /\ IsFlag(bus, "ranges") /\ Len(bus.path) = 1
                 /\ IsCells(bus, "#address-cells", <<Cell(2)>>) /\ IsCells(bus, "#size-cells", <<Cell(2)>>)
                 /\ Under(clint, bus) /\ Under(plic, bus)>>,
        <<"clint", IsCells(clint, "reg", <<Cell(0), <<512, 0>>, Cell(0), <<12, 0>>>>)>>,
        <<"plic", IsCells(plic, "reg", <<Cell(0), <<3072, 0>>, Cell(0), <<256, 0>>>>) /\ IsCells(plic, "riscv,ndev", <<Cell(31)>>)
                  /\ IsFlag(plic, "interrupt-controller") /\ IsCells(plic, "#interrupt-cells", <<Cell(1)>>)>>,
        <<"uart", IsCells(uart, "reg", <<Cell(0), <<4096, 0>>, Cell(0), Cell(256)>>) /\ IsCells(uart, "reg-shift", <<Cell(0)>>)
                  /\ IsCells(uart, "reg-io-width", <<Cell(1)>>)>>,
        <<"phandles", /\ \A i \in ph : Len(Get(t[i], "phandle")) = 4 /\ PHandle(t[i]) \notin {<<0, 0>>, <<65535, 65535>>}
                      /\ \A i, j \in ph : i # j => PHandle(t[i]) # PHandle(t[j])
                      /\ Has(intc, "phandle") /\ Has(plic, "phandle")>>,
        <<"clint interrupts", IsCells(clint, "interrupts-extended", <<hi, Cell(3), hi, Cell(7)>>)>>,
        <<"plic interrupts", IsCells(plic, "interrupts-extended", <<hi, Cell(11), hi, Cell(9)>>)>>,
        <<"uart interrupts", IsCells(uart, "interrupt-parent", <<PHandle(plic)>>) /\ IsCells(uart, "interrupts", <<Cell(1)>>)>>,
        <<"stdout", Has(chosen, "stdout-path") /\ Get(chosen, "stdout-path") = Append(Joined(uart.path), 0)>>,
        <<"initrd", IF m.initrd = 0 /\ ~Has(chosen, "linux,initrd-start") /\ ~Has(chosen, "linux,initrd-end") THEN TRUE
                    ELSE IsNumber(chosen, "linux,initrd-start", start) /\ IsNumber(chosen, "linux,initrd-end", end)>>,
        <<"unit addresses", \A i \in 2..Len(t) : UnitOk(t, t[i])>>>>
      Fails(l) == {l[i][1] : i \in {i \in 1..Len(l) : ~l[i][2]}}
  IN IF Fails(F) # {} THEN Fails(F) ELSE Fails(G)

\* the deviations of the tree in a ROM (halfwords), off (even) bytes from its beginning
TreeDeviations(rom, off, m) ==
  LET b == TLCEval([i \in 1..(2 * Len(rom) - off) |->
                      LET h == rom[((i + off - 1) \div 2) + 1] IN IF i % 2 = 1 THEN h % 256 ELSE h \div 256])
      p == Parse(b)
  IN IF ~p.ok THEN {<<"malformed at offset", p.at>>} ELSE Wrong(p.nodes, m)
=============================================================================
