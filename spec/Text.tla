---------------------------------- MODULE Text ----------------------------------
(***************************************************************************)
(* Words and bytes as text.                                                *)
(***************************************************************************)
EXTENDS Word, TLC

CHARS == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(b) == SubSeq(CHARS, b - 31, b - 31)
DIGITS == "0123456789abcdef"
Digit(n) == SubSeq(DIGITS, n + 1, n + 1)

RECURSIVE HexN(_, _)            \* n hexadecimal digits of the integer v
HexN(v, n) == IF n = 0 THEN "" ELSE HexN(v \div 16, n - 1) \o Digit(v % 16)
RECURSIVE HexI(_)
HexI(v) == IF v < 16 THEN Digit(v) ELSE HexI(v \div 16) \o Digit(v % 16)

\* a word, without leading zeros
Hex(w) == CASE w[4] # 0 -> HexI(w[4]) \o HexN(w[3], 4) \o HexN(w[2], 4) \o HexN(w[1], 4)
            [] w[3] # 0 -> HexI(w[3]) \o HexN(w[2], 4) \o HexN(w[1], 4)
            [] w[2] # 0 -> HexI(w[2]) \o HexN(w[1], 4)
            [] OTHER -> HexI(w[1])

RECURSIVE Dec(_)                \* a word as an unsigned decimal number
Dec(w) ==
  LET d4 == w[4] \div 10    r4 == w[4] % 10
      t3 == r4 * 65536 + w[3]   d3 == t3 \div 10   r3 == t3 % 10
      t2 == r3 * 65536 + w[2]   d2 == t2 \div 10   r2 == t2 % 10
      t1 == r2 * 65536 + w[1]   d1 == t1 \div 10   r1 == t1 % 10
      q == <<d1, d2, d3, d4>>
  IN IF q = Zero THEN Digit(r1) ELSE Dec(q) \o Digit(r1)

\* the low 32 bits as a signed number
Signed(w) == IF w[2] < 32768 THEN Dec(<<w[1], w[2], 0, 0>>)
             ELSE "-" \o Dec(Sub(<<0, 0, 1, 0>>, <<w[1], w[2], 0, 0>>))

RECURSIVE Blank(_)
Blank(n) == IF n <= 0 THEN "" ELSE " " \o Blank(n - 1)
LeftIn(t, n) == t \o Blank(n - Len(t))
RightIn(t, n) == Blank(n - Len(t)) \o t

\* names of the registers
Regs == <<"zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7",
          "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6">>
=============================================================================
