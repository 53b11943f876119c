--------------------------------- MODULE Inspect ---------------------------------
(***************************************************************************)
(* What the inspection options print: the headers of an ELF file, the      *)
(* words of its segments, the instructions of its executable sections.     *)
(* A line is given as the set of texts it may have: operands that an       *)
(* encoding implies may be shown or not.                                   *)
(***************************************************************************)
EXTENDS Elf, Isa, Text

(* ---- names in the file ---- *)

\* the NUL-terminated string at offset o of the file
RECURSIVE StringAt(_, _)
StringAt(f, o) == IF f[o + 1] = 0 THEN "" ELSE Chr(f[o + 1]) \o StringAt(f, o + 1)

(* ---- headers ---- *)

\* a field: ELF64 and ELF32 offsets and sizes
Fld(f, h, o64, n64, o32, n32) ==
  LET o == h + (IF Is64(f) THEN o64 ELSE o32)
      n == IF Is64(f) THEN n64 ELSE n32
  IN CASE n = 2 -> <<Le2(f, o), 0, 0, 0>> [] n = 4 -> W4(f, o) [] n = 8 -> W8(f, o)

Small(w) == w[1]
Named(names, w) == IF w[2] = 0 /\ w[3] = 0 /\ w[4] = 0 /\ w[1] < Len(names) THEN {names[w[1] + 1]} ELSE {"unknown type"}

Only(t) == {t}
After(t, l) == {t \o x : x \in l}

ElfTypes == <<"ET_NONE", "ET_REL", "ET_EXEC", "ET_DYN", "ET_CORE">>
RECURSIVE Magic(_, _)
Magic(f, i) == IF i = 16 THEN "" ELSE HexN(f[i + 1], 2) \o " " \o Magic(f, i + 1)

HeaderLines(f) ==
  LET F(o64, n64, o32, n32) == Fld(f, 0, o64, n64, o32, n32)
  IN <<Only("================ elf header ================"),
       Only("magic:\t" \o Magic(f, 0)),
       Only("class:\t\t" \o ToString(f[5])),
       Only("endian:\t\t" \o ToString(f[6])),
       Only("version:\t" \o ToString(f[7])),
       Only("os_abi:\t\t" \o ToString(f[8])),
       Only("os_abi_ver:\t" \o ToString(f[9])),
       After("e_type:\t\t", Named(ElfTypes, F(16, 2, 16, 2))),
       Only("e_machine:\t" \o Dec(F(18, 2, 18, 2))),
       Only("e_version:\t0x" \o Hex(F(20, 4, 20, 4))),
       Only("e_entry:\t0x" \o Hex(F(24, 8, 24, 4))),
       Only("e_phoff:\t" \o Dec(F(32, 8, 28, 4)) \o " (bytes into file)"),
       Only("e_shoff:\t" \o Dec(F(40, 8, 32, 4)) \o " (bytes into file)"),
       Only("e_flags:\t0x" \o Hex(F(48, 4, 36, 4))),
       Only("e_ehsize:\t" \o Dec(F(52, 2, 40, 2)) \o " (bytes)"),
       Only("e_phentsize:\t" \o Dec(F(54, 2, 42, 2)) \o " (bytes)"),
       Only("e_phnum:\t" \o Dec(F(56, 2, 44, 2))),
       Only("e_shentsize:\t" \o Dec(F(58, 2, 46, 2)) \o " (bytes)"),
       Only("e_shnum:\t" \o Dec(F(60, 2, 48, 2))),
       Only("e_shstrndx:\t" \o Dec(F(62, 2, 50, 2)))>>

\* the types the ELF standard numbers consecutively; what it leaves to others is not named here
SegTypes == <<"PT_NULL", "PT_LOAD", "PT_DYNAMIC", "PT_INTERP", "PT_NOTE", "PT_SHLIB", "PT_PHDR">>
SectTypes == <<"SHT_NULL", "SHT_PROGBITS", "SHT_SYMTAB", "SHT_STRTAB", "SHT_RELA", "SHT_HASH", "SHT_DYNAMIC", "SHT_NOTE",
               "SHT_NOBITS", "SHT_REL", "SHT_SHLIB", "SHT_DYNSYM">>

SegmentLines(f, i) ==
  LET F(o64, n64, o32, n32) == Fld(f, PhOff(f) + PhEnt(f) * i, o64, n64, o32, n32)
      X(t, w) == Only(t \o "0x" \o Hex(w))
  IN <<Only("============== program header " \o ToString(i + 1) \o "=============="),
       After("p_type:\t\t", Named(SegTypes, F(0, 4, 0, 4))),
       X("p_offset:\t", F(8, 8, 4, 4)),
       X("p_vaddr:\t", F(16, 8, 8, 4)),
       X("p_paddr:\t", F(24, 8, 12, 4)),
       X("p_filesz:\t", F(32, 8, 16, 4)),
       X("p_memsz:\t", F(40, 8, 20, 4)),
       Only("p_flags:\t" \o Dec(F(4, 4, 24, 4))),
       X("p_align:\t", F(48, 8, 28, 4))>>

\* where the section of names is in the file
ShStr(f) == LET h == ShOff(f) + ShEnt(f) * (IF Is64(f) THEN Le2(f, 62) ELSE Le2(f, 50))
            IN IF Is64(f) THEN I8(f, h + 24) ELSE I4(f, h + 16)
SectFlags(f, i) == Fld(f, ShOff(f) + ShEnt(f) * i, 8, 8, 8, 4)
Executable(f, i) == (SectFlags(f, i)[1] \div 4) % 2 = 1

SectionLines(f, i) ==
  LET h == ShOff(f) + ShEnt(f) * i
      F(o64, n64, o32, n32) == Fld(f, h, o64, n64, o32, n32)
  IN <<Only("============== section header " \o ToString(i + 1) \o "=============="),
       Only("sh_name:\t" \o StringAt(f, ShStr(f) + I4(f, h))),
       After("sh_type:\t", Named(SectTypes, F(4, 4, 4, 4))),
       Only("sh_flags:\t" \o Dec(SectFlags(f, i))),
       Only("sh_addr:\t0x" \o Hex(F(16, 8, 12, 4))),
       Only("sh_offset:\t0x" \o Hex(F(24, 8, 16, 4))),
       Only("sh_size:\t" \o Dec(F(32, 8, 20, 4))),
       Only("sh_link:\t" \o Dec(F(40, 4, 24, 4))),
       Only("sh_info:\t" \o Dec(F(44, 4, 28, 4))),
       Only("sh_addralign:\t" \o Dec(F(48, 8, 32, 4))),
       Only("sh_entsize:\t" \o Dec(F(56, 8, 36, 4)))>>

(* ---- the words of a segment: those the file has, eight in a line ---- *)

WordText(f, o, n) ==      \* n: bytes of it that belong to the segment
  LET b(k) == IF k < n THEN f[o + k + 1] ELSE 0
  IN HexN(b(3), 2) \o HexN(b(2), 2) \o HexN(b(1), 2) \o HexN(b(0), 2) \o " "

RECURSIVE WordsText(_, _, _)
WordsText(f, o, n) == IF n <= 0 THEN "" ELSE WordText(f, o, n) \o WordsText(f, o + 4, n - 4)

Min(a, b) == IF a < b THEN a ELSE b
Dump(f, p) == [k \in 1..((p.size + 31) \div 32) |-> Only(WordsText(f, p.off + 32 * (k - 1), Min(32, p.size - 32 * (k - 1))))]

(* ---- instructions ---- *)

Reg(r) == {Regs[r + 1]}
Num(n) == {ToString(n)}
None == {""}
MayBe(s) == s \cup None

\* columns: mnemonic, then what may be shown for rd, rs1, rs2, imm
Cols(m, rd, a, b, imm) == [m |-> m, rd |-> rd, a |-> a, b |-> b, imm |-> imm]

Width(n) == CASE n = 1 -> "b" [] n = 2 -> "h" [] n = 4 -> "w" [] n = 8 -> "d"

\* operands of a decoded instruction
Operands(m, o) ==
  LET Rd == Reg(o.rd)  Ra == Num(o.a)  Rb == Num(o.b)  Im == {Signed(o.imm)}
  IN CASE o.k \in {"lui", "auipc", "jal"} -> Cols(m, Rd, None, None, Im)
       [] o.k \in {"jalr", "load", "alui"} -> Cols(m, Rd, Ra, None, Im)
       [] o.k \in {"branch", "store"} -> Cols(m, None, Ra, Rb, Im)
       [] o.k \in {"alu", "mul", "sc", "amo", "csr"} -> Cols(m, Rd, Ra, Rb, None)
       [] o.k = "lr" -> Cols(m, Rd, Ra, None, None)
       [] o.k = "sfence" -> Cols(m, None, Ra, Rb, None)
       [] OTHER -> Cols(m, None, None, None, None)

Mnemonic(o) ==
  LET W == IF o.w THEN "w" ELSE ""
  IN CASE o.k = "branch" -> "b" \o o.f
       [] o.k = "load" -> "l" \o Width(o.f) \o (IF o.w THEN "" ELSE "u")
       [] o.k = "store" -> "s" \o Width(o.f)
       [] o.k = "alui" -> IF o.f = "sltu" THEN "sltiu" ELSE o.f \o "i" \o W
       [] o.k \in {"alu", "mul"} -> o.f \o W
       [] o.k \in {"lr", "sc"} -> o.k \o "." \o Width(o.f)
       [] o.k = "amo" -> "amo" \o o.f \o (IF o.w THEN ".w" ELSE ".d")
       [] o.k = "csr" -> "csrr" \o o.f \o (IF o.w THEN "i" ELSE "")
       [] o.k = "sfence" -> "sfence.vma"
       [] OTHER -> o.k

CMnemonic(rv, c) ==
  LET q == c % 4
      f3 == c \div 8192
      rd == (c \div 128) % 32
      rs2 == (c \div 4) % 32
      b12 == (c \div 4096) % 2
  IN CASE q = 0 -> CASE f3 = 0 -> "addi4spn" [] f3 = 2 -> "lw" [] f3 = 3 -> "ld" [] f3 = 6 -> "sw" [] OTHER -> "sd"
       [] q = 1 ->
          CASE f3 = 0 -> IF rd = 0 THEN "nop" ELSE "addi"
            [] f3 = 1 -> IF rv = 32 THEN "jal" ELSE "addiw"
            [] f3 = 2 -> "li"
            [] f3 = 3 -> IF rd = 2 THEN "addi16sp" ELSE "lui"
            [] f3 = 4 -> LET s == (c \div 1024) % 4
                             t == (c \div 32) % 4
                         IN CASE s = 0 -> "srli" [] s = 1 -> "srai" [] s = 2 -> "andi"
                              [] b12 = 0 -> <<"sub", "xor", "or", "and">>[t + 1]
                              [] OTHER -> <<"subw", "addw", "", "">>[t + 1]
            [] f3 = 5 -> "j"
            [] f3 = 6 -> "beqz"
            [] OTHER -> "bnez"
       [] OTHER ->
          CASE f3 = 0 -> "slli" [] f3 = 2 -> "lwsp" [] f3 = 3 -> "ldsp" [] f3 = 6 -> "swsp" [] f3 = 7 -> "sdsp"
            [] b12 = 0 -> IF rs2 = 0 THEN "jr" ELSE "mv"
            [] OTHER -> IF rs2 # 0 THEN "add" ELSE IF rd = 0 THEN "ebreak" ELSE "jalr"

\* what the encoding implies may be left out; jumps to a register may show it as the destination
CColumns(rv, c) ==
  LET o == Decode16(rv, c)
      n == CMnemonic(rv, c)
      p == Operands("C." \o n, o)
      r == (c \div 128) % 32
  IN CASE n \in {"lwsp", "ldsp", "swsp", "sdsp", "addi4spn", "mv", "li"} -> [p EXCEPT !.a = MayBe(@)]
       [] n \in {"beqz", "bnez"} -> [p EXCEPT !.b = MayBe(@)]
       [] n \in {"j", "jal", "addi16sp"} -> [p EXCEPT !.rd = MayBe(@)]
       [] n = "nop" -> [p EXCEPT !.rd = MayBe(@), !.a = MayBe(@), !.imm = MayBe(@)]
       [] n \in {"jr", "jalr"} -> [p EXCEPT !.rd = MayBe(@) \cup Reg(r), !.imm = MayBe(@)]
       [] n = "ebreak" -> [p EXCEPT !.rd = MayBe(@) \cup Reg(0)]
       [] OTHER -> p

\* the ordering bits of an atomic instruction may be shown
Ordered(p, k, hi) == IF k \in {"amo", "lr", "sc"} THEN [p EXCEPT !.imm = MayBe(Num((hi \div 512) % 4))] ELSE p

Text(p) == {LeftIn(p.m, 12) \o RightIn(rd, 4) \o RightIn(a, 10) \o "," \o RightIn(b, 10) \o "," \o RightIn(i, 10) \o ","
            : rd \in p.rd, a \in p.a, b \in p.b, i \in p.imm}

Unknown == {"unknown"}

\* the lines from offset o to the offset e where the section ends
RECURSIVE Disasm(_, _, _, _)
Disasm(f, rv, o, e) ==
  IF o + 2 > e THEN <<>>
  ELSE LET lo == Le2(f, o)
       IN IF lo % 4 = 3 /\ o + 4 <= e
          THEN LET hi == Le2(f, o + 2)
                   d == Decode32(rv, lo, hi)
               IN <<After(HexN(hi, 4) \o HexN(lo, 4) \o "\t", IF d.k = "illegal" THEN Unknown ELSE Text(Ordered(Operands(Mnemonic(d), d), d.k, hi)))>>
                  \o Disasm(f, rv, o + 4, e)
          ELSE <<After(HexN(lo, 4) \o "\t\t", IF lo % 4 = 3 \/ Decode16(rv, lo).k = "illegal" THEN Unknown ELSE Text(CColumns(rv, lo)))>>
               \o Disasm(f, rv, o + 2, e)

Code(f, i) ==
  LET h == ShOff(f) + ShEnt(f) * i
      off == IF Is64(f) THEN I8(f, h + 24) ELSE I4(f, h + 16)
      size == IF Is64(f) THEN I8(f, h + 32) ELSE I4(f, h + 20)
  IN <<Only("--------------------------------")>> \o Disasm(f, IF Is64(f) THEN 64 ELSE 32, off, off + size)

(* ---- the options ---- *)

Gap == <<None, None, None>>
RECURSIVE Each(_, _, _)
Each(L(_), i, n) == IF i = n THEN <<>> ELSE L(i) \o Each(L, i + 1, n)

\* the segments' type decides nothing here: all are shown
Lines(f, opt) ==
  LET Seg(i) == SegmentLines(f, i)
      Sect(i) == SectionLines(f, i)
      SegDump(i) == LET d == Dump(f, Phdr(f, i)) IN SegmentLines(f, i) \o (IF d = <<>> THEN <<None>> ELSE <<None>> \o d) \o <<None, None>>
      SectDump(i) == IF Executable(f, i) THEN SectionLines(f, i) \o Code(f, i) \o Gap ELSE <<>>
  IN CASE opt = "e" -> HeaderLines(f)
       [] opt = "p" -> Each(SegDump, 0, PhNum(f))
       [] opt \in {"s", "d"} -> Each(SectDump, 0, ShNum(f))
       [] opt = "a" -> HeaderLines(f) \o Gap \o Each(Seg, 0, PhNum(f)) \o Gap \o Each(Sect, 0, ShNum(f))

\* where the printed lines differ: <<>>, or <<line number, printed, expected>>
Deviation(f, opt, lines) ==
  LET want == Lines(f, opt)
      n == Min(Len(want), Len(lines))
      bad == {i \in 1..n : lines[i] \notin want[i]}
  IN IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN <<i, lines[i], want[i]>>
     ELSE IF Len(want) # Len(lines) THEN <<n + 1, "lines", Len(lines), Len(want)>>
     ELSE <<>>
=============================================================================
