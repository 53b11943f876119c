---------------------------------- MODULE Isa ----------------------------------
(***************************************************************************)
(* Instruction encodings of RV32/RV64 IMAC, Zicsr, Zifencei and the        *)
(* privileged instructions, and the value every computational instruction  *)
(* produces.                                                               *)
(*                                                                         *)
(* Decode32(rv, lo, hi) and Decode16(rv, c) map the bits of an instruction *)
(* (as 16-bit parcels) to one record                                       *)
(*    [k, f, w, rd, a, b, imm]                                             *)
(* kind, function, word form, destination, sources, immediate (a word).    *)
(* A compressed instruction is decoded to the record of the instruction it *)
(* expands to; only its length differs.                                    *)
(***************************************************************************)
EXTENDS Word

Op(k, f, w, rd, a, b, imm) ==
  [k |-> k, f |-> f, w |-> w, rd |-> rd, a |-> a, b |-> b, imm |-> imm]

Illegal == Op("illegal", "", FALSE, 0, 0, 0, Zero)

Sx(v, n) == IF v >= 2^(n - 1) THEN v - 2^n ELSE v      \* n-bit two's complement

(* -------------------------------------------------------------------- *)
(* 32-bit encodings                                                     *)
(* -------------------------------------------------------------------- *)

AluF == <<"add", "sll", "slt", "sltu", "xor", "srl", "or", "and">>
MulF == <<"mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu">>
BrF  == <<"eq", "ne", "", "", "lt", "ge", "ltu", "geu">>
CsrF == <<"", "w", "s", "c", "", "w", "s", "c">>

AmoF(f5) ==
  CASE f5 = 1 -> "swap" [] f5 = 0 -> "add" [] f5 = 4 -> "xor" [] f5 = 12 -> "and"
    [] f5 = 8 -> "or" [] f5 = 16 -> "min" [] f5 = 20 -> "max"
    [] f5 = 24 -> "minu" [] f5 = 28 -> "maxu" [] OTHER -> ""

Decode32(rv, lo, hi) ==
  LET opc == lo % 128
      rd  == (lo \div 128) % 32
      f3  == (lo \div 4096) % 8
      rs1 == (lo \div 32768) + 2 * (hi % 16)
      rs2 == (hi \div 16) % 32
      f7  == hi \div 512
      f6  == hi \div 1024
      i12 == hi \div 16
      immI == FromInt(Sx(i12, 12))
      immS == FromInt(Sx(f7 * 32 + rd, 12))
      immB == FromInt(Sx((hi \div 32768) * 4096 + (rd % 2) * 2048
                         + (f7 % 64) * 32 + (rd \div 2) * 2, 13))
      immU == SExtH(<<(lo \div 4096) * 4096, hi, 0, 0>>)
      immJ == FromInt(Sx((hi \div 32768) * 1048576 + ((hi % 16) * 16 + lo \div 4096) * 4096
                         + ((hi \div 16) % 2) * 2048 + ((hi \div 32) % 1024) * 2, 21))
      is64 == rv = 64
      Only64(o) == IF is64 THEN o ELSE Illegal
      \* shift immediates: six bits on RV64, five on RV32 (and in the W forms)
      shok(w) == IF is64 /\ ~w THEN f6 \in {0, 16} ELSE f7 \in {0, 32}
      arith == IF is64 THEN f6 = 16 ELSE f7 = 32
      sham(w) == FromInt(IF is64 /\ ~w THEN (hi \div 16) % 64 ELSE rs2)
  IN
  CASE opc = 55  -> Op("lui", "", FALSE, rd, 0, 0, immU)
    [] opc = 23  -> Op("auipc", "", FALSE, rd, 0, 0, immU)
    [] opc = 111 -> Op("jal", "", FALSE, rd, 0, 0, immJ)
    [] opc = 103 -> IF f3 = 0 THEN Op("jalr", "", FALSE, rd, rs1, 0, immI) ELSE Illegal
    [] opc = 99  -> IF f3 \in {2, 3} THEN Illegal
                    ELSE Op("branch", BrF[f3 + 1], FALSE, 0, rs1, rs2, immB)
    [] opc = 3   -> CASE f3 \in {0, 1, 2} -> Op("load", 2^f3, TRUE, rd, rs1, 0, immI)
                      [] f3 = 3 -> Only64(Op("load", 8, TRUE, rd, rs1, 0, immI))
                      [] f3 \in {4, 5} -> Op("load", 2^(f3 - 4), FALSE, rd, rs1, 0, immI)
                      [] f3 = 6 -> Only64(Op("load", 4, FALSE, rd, rs1, 0, immI))
                      [] OTHER -> Illegal
    [] opc = 35  -> CASE f3 \in {0, 1, 2} -> Op("store", 2^f3, FALSE, 0, rs1, rs2, immS)
                      [] f3 = 3 -> Only64(Op("store", 8, FALSE, 0, rs1, rs2, immS))
                      [] OTHER -> Illegal
    [] opc = 19  -> CASE f3 = 1 -> IF shok(FALSE) /\ ~arith
                                   THEN Op("alui", "sll", FALSE, rd, rs1, 0, sham(FALSE))
                                   ELSE Illegal
                      [] f3 = 5 -> IF shok(FALSE)
                                   THEN Op("alui", IF arith THEN "sra" ELSE "srl", FALSE,
                                           rd, rs1, 0, sham(FALSE))
                                   ELSE Illegal
                      [] OTHER -> Op("alui", AluF[f3 + 1], FALSE, rd, rs1, 0, immI)
    [] opc = 51  -> CASE f7 = 0  -> Op("alu", AluF[f3 + 1], FALSE, rd, rs1, rs2, Zero)
                      [] f7 = 1  -> Op("mul", MulF[f3 + 1], FALSE, rd, rs1, rs2, Zero)
                      [] f7 = 32 /\ f3 = 0 -> Op("alu", "sub", FALSE, rd, rs1, rs2, Zero)
                      [] f7 = 32 /\ f3 = 5 -> Op("alu", "sra", FALSE, rd, rs1, rs2, Zero)
                      [] OTHER -> Illegal
    [] opc = 27  -> Only64(
                    CASE f3 = 0 -> Op("alui", "add", TRUE, rd, rs1, 0, immI)
                      [] f3 = 1 -> IF f7 = 0 THEN Op("alui", "sll", TRUE, rd, rs1, 0, sham(TRUE))
                                   ELSE Illegal
                      [] f3 = 5 -> IF shok(TRUE)
                                   THEN Op("alui", IF f7 = 32 THEN "sra" ELSE "srl", TRUE,
                                           rd, rs1, 0, sham(TRUE))
                                   ELSE Illegal
                      [] OTHER -> Illegal)
    [] opc = 59  -> Only64(
                    CASE f7 = 0 /\ f3 \in {0, 1, 5} -> Op("alu", AluF[f3 + 1], TRUE, rd, rs1, rs2, Zero)
                      [] f7 = 32 /\ f3 = 0 -> Op("alu", "sub", TRUE, rd, rs1, rs2, Zero)
                      [] f7 = 32 /\ f3 = 5 -> Op("alu", "sra", TRUE, rd, rs1, rs2, Zero)
                      [] f7 = 1 /\ f3 \in {0, 4, 5, 6, 7} -> Op("mul", MulF[f3 + 1], TRUE, rd, rs1, rs2, Zero)
                      [] OTHER -> Illegal)
    [] opc = 15  -> IF f3 \in {0, 1} THEN Op("fence", "", FALSE, 0, 0, 0, Zero) ELSE Illegal
    [] opc = 47  -> LET f5 == hi \div 2048
                        sz == 2^f3
                        o  == CASE f5 = 2 -> IF rs2 = 0 THEN Op("lr", sz, FALSE, rd, rs1, 0, Zero)
                                             ELSE Illegal
                                [] f5 = 3 -> Op("sc", sz, FALSE, rd, rs1, rs2, Zero)
                                [] OTHER  -> IF AmoF(f5) = "" THEN Illegal
                                             ELSE Op("amo", AmoF(f5), f3 = 2, rd, rs1, rs2, Zero)
                    IN CASE f3 = 2 -> o [] f3 = 3 -> Only64(o) [] OTHER -> Illegal
    [] opc = 115 -> IF f3 = 0
                    THEN CASE rd # 0 -> Illegal
                           [] f7 = 9 -> Op("sfence", "", FALSE, 0, rs1, rs2, Zero)
                           [] rs1 # 0 -> Illegal
                           [] i12 = 0 -> Op("ecall", "", FALSE, 0, 0, 0, Zero)
                           [] i12 = 1 -> Op("ebreak", "", FALSE, 0, 0, 0, Zero)
                           [] i12 = 258 -> Op("sret", "", FALSE, 0, 0, 0, Zero)
                           [] i12 = 770 -> Op("mret", "", FALSE, 0, 0, 0, Zero)
                           [] i12 = 261 -> Op("wfi", "", FALSE, 0, 0, 0, Zero)
                           [] OTHER -> Illegal
                    ELSE IF f3 = 4 THEN Illegal
                    \* w: the immediate form; b: the CSR number
                    ELSE Op("csr", CsrF[f3 + 1], f3 > 4, rd, rs1, i12, FromInt(rs1))
    [] OTHER -> Illegal

(* -------------------------------------------------------------------- *)
(* 16-bit encodings: expanded                                           *)
(* -------------------------------------------------------------------- *)

Decode16(rv, c) ==
  LET b(i) == (c \div 2^i) % 2
      q    == c % 4
      f3   == c \div 8192
      rd   == (c \div 128) % 32          \* also rs1
      rs2  == (c \div 4) % 32
      rdp  == 8 + ((c \div 4) % 8)         \* also rs2'
      rs1p == 8 + ((c \div 128) % 8)       \* also rd'
      imm6 == rs2 - 32 * b(12)
      sham == rs2 + 32 * b(12)
      is64 == rv = 64
      Nz(v, o) == IF v = 0 THEN Illegal ELSE o
      ui(n) == FromInt(n)
      lwimm == ((c \div 1024) % 8) * 8 + b(6) * 4 + b(5) * 64
      ldimm == ((c \div 1024) % 8) * 8 + ((c \div 32) % 4) * 64
      jimm  == b(11) * 16 + ((c \div 512) % 4) * 256 + b(8) * 1024 + b(7) * 64 + b(6) * 128
               + ((c \div 8) % 8) * 2 + b(2) * 32 - b(12) * 2048
      bimm  == ((c \div 1024) % 4) * 8 + ((c \div 32) % 4) * 64 + ((c \div 8) % 4) * 2
               + b(2) * 32 - b(12) * 256
      Shift(f, d) == IF ~is64 /\ sham > 31 THEN Illegal
                     ELSE Op("alui", f, FALSE, d, d, 0, ui(sham))
  IN
  CASE q = 0 ->
       (CASE f3 = 0 -> LET n == ((c \div 2048) % 4) * 16 + ((c \div 128) % 16) * 64 + b(6) * 4 + b(5) * 8
                       IN Nz(n, Op("alui", "add", FALSE, rdp, 2, 0, ui(n)))
          [] f3 = 2 -> Op("load", 4, TRUE, rdp, rs1p, 0, ui(lwimm))
          [] f3 = 3 /\ is64 -> Op("load", 8, TRUE, rdp, rs1p, 0, ui(ldimm))
          [] f3 = 6 -> Op("store", 4, FALSE, 0, rs1p, rdp, ui(lwimm))
          [] f3 = 7 /\ is64 -> Op("store", 8, FALSE, 0, rs1p, rdp, ui(ldimm))
          [] OTHER -> Illegal)
    [] q = 1 ->
       (CASE f3 = 0 -> Op("alui", "add", FALSE, rd, rd, 0, ui(imm6))
          [] f3 = 1 -> IF is64 THEN Nz(rd, Op("alui", "add", TRUE, rd, rd, 0, ui(imm6)))
                       ELSE Op("jal", "", FALSE, 1, 0, 0, ui(jimm))
          [] f3 = 2 -> Op("alui", "add", FALSE, rd, 0, 0, ui(imm6))
          [] f3 = 3 -> IF rd = 2
                       THEN LET n == b(6) * 16 + b(5) * 64 + ((c \div 8) % 4) * 128 + b(2) * 32 - b(12) * 512
                            IN Nz(n, Op("alui", "add", FALSE, 2, 2, 0, ui(n)))
                       ELSE Nz(imm6, Op("lui", "", FALSE, rd, 0, 0, ui(imm6 * 4096)))
          [] f3 = 4 -> LET s == (c \div 1024) % 4
                           t == (c \div 32) % 4
                       IN CASE s = 0 -> Shift("srl", rs1p)
                            [] s = 1 -> Shift("sra", rs1p)
                            [] s = 2 -> Op("alui", "and", FALSE, rs1p, rs1p, 0, ui(imm6))
                            [] b(12) = 0 -> Op("alu", <<"sub", "xor", "or", "and">>[t + 1], FALSE,
                                               rs1p, rs1p, rdp, Zero)
                            [] is64 /\ t < 2 -> Op("alu", <<"sub", "add">>[t + 1], TRUE,
                                                   rs1p, rs1p, rdp, Zero)
                            [] OTHER -> Illegal
          [] f3 = 5 -> Op("jal", "", FALSE, 0, 0, 0, ui(jimm))
          [] f3 = 6 -> Op("branch", "eq", FALSE, 0, rs1p, 0, ui(bimm))
          [] OTHER  -> Op("branch", "ne", FALSE, 0, rs1p, 0, ui(bimm)))
    [] q = 2 ->
       (CASE f3 = 0 -> Shift("sll", rd)
          [] f3 = 2 -> Nz(rd, Op("load", 4, TRUE, rd, 2, 0,
                                 ui(b(12) * 32 + ((c \div 16) % 8) * 4 + ((c \div 4) % 4) * 64)))
          [] f3 = 3 /\ is64 -> Nz(rd, Op("load", 8, TRUE, rd, 2, 0,
                                 ui(b(12) * 32 + ((c \div 32) % 4) * 8 + ((c \div 4) % 8) * 64)))
          [] f3 = 4 -> IF b(12) = 0
                       THEN IF rs2 = 0 THEN Nz(rd, Op("jalr", "", FALSE, 0, rd, 0, Zero))
                            ELSE Op("alu", "add", FALSE, rd, 0, rs2, Zero)
                       ELSE IF rs2 # 0 THEN Op("alu", "add", FALSE, rd, rd, rs2, Zero)
                            ELSE IF rd = 0 THEN Op("ebreak", "", FALSE, 0, 0, 0, Zero)
                                 ELSE Op("jalr", "", FALSE, 1, rd, 0, Zero)
          [] f3 = 6 -> Op("store", 4, FALSE, 0, 2, rs2,
                          ui(((c \div 512) % 16) * 4 + ((c \div 128) % 4) * 64))
          [] f3 = 7 /\ is64 -> Op("store", 8, FALSE, 0, 2, rs2,
                          ui(((c \div 1024) % 8) * 8 + ((c \div 128) % 8) * 64))
          [] OTHER -> Illegal)
    [] OTHER -> Illegal

(* -------------------------------------------------------------------- *)
(* values                                                               *)
(* -------------------------------------------------------------------- *)

\* RV32 registers hold 32-bit values, zero extended
Norm(rv, a) == IF rv = 32 THEN ZExtH(a) ELSE a

Bool(p) == IF p THEN One ELSE Zero

Alu(rv, f, w, x, y) ==
  IF w                                           \* 32-bit operation on RV64
  THEN LET n == y[1] % 32
       IN SExtH(CASE f = "add" -> Add(x, y)
                  [] f = "sub" -> Sub(x, y)
                  [] f = "sll" -> ShlH(x, n)
                  [] f = "srl" -> ShrH(x, n)
                  [] f = "sra" -> SarH(x, n))
  ELSE IF rv = 32
  THEN LET n == y[1] % 32
       IN ZExtH(CASE f = "add"  -> Add(x, y)
                  [] f = "sub"  -> Sub(x, y)
                  [] f = "sll"  -> ShlH(x, n)
                  [] f = "srl"  -> ShrH(x, n)
                  [] f = "sra"  -> SarH(x, n)
                  [] f = "slt"  -> Bool(Lts(SExtH(x), SExtH(y)))
                  [] f = "sltu" -> Bool(Ltu(ZExtH(x), ZExtH(y)))
                  [] f = "xor"  -> WXor(x, y)
                  [] f = "or"   -> WOr(x, y)
                  [] f = "and"  -> WAnd(x, y))
  ELSE LET n == y[1] % 64
       IN CASE f = "add"  -> Add(x, y)
            [] f = "sub"  -> Sub(x, y)
            [] f = "sll"  -> Shl(x, n)
            [] f = "srl"  -> Shr(x, n)
            [] f = "sra"  -> Sar(x, n)
            [] f = "slt"  -> Bool(Lts(x, y))
            [] f = "sltu" -> Bool(Ltu(x, y))
            [] f = "xor"  -> WXor(x, y)
            [] f = "or"   -> WOr(x, y)
            [] f = "and"  -> WAnd(x, y)

HighHalf(a) == <<a[3], a[4], 0, 0>>

MulDiv(rv, f, w, x, y) ==
  IF rv = 32
  THEN LET sx == SExtH(x)  sy == SExtH(y)
           zx == ZExtH(x)  zy == ZExtH(y)
       IN CASE f = "mul"    -> HighHalf(Shl(Mul(zx, zy), HALF))
            [] f = "mulh"   -> HighHalf(Mul(sx, sy))
            [] f = "mulhsu" -> HighHalf(Mul(sx, zy))
            [] f = "mulhu"  -> HighHalf(Mul(zx, zy))
            [] f = "div"    -> ZExtH(DivS(sx, sy))
            [] f = "divu"   -> ZExtH(DivU(zx, zy))
            [] f = "rem"    -> ZExtH(RemS(sx, sy))
            [] f = "remu"   -> ZExtH(RemU(zx, zy))
  ELSE IF w
  THEN LET sx == SExtH(x)  sy == SExtH(y)
           zx == ZExtH(x)  zy == ZExtH(y)
       IN SExtH(CASE f = "mul"  -> Mul(zx, zy)
                  [] f = "div"  -> DivS(sx, sy)
                  [] f = "divu" -> DivU(zx, zy)
                  [] f = "rem"  -> RemS(sx, sy)
                  [] f = "remu" -> RemU(zx, zy))
  ELSE CASE f = "mul"    -> Mul(x, y)
         [] f = "mulh"   -> MulH(x, y)
         [] f = "mulhsu" -> MulHSU(x, y)
         [] f = "mulhu"  -> MulHU(x, y)
         [] f = "div"    -> DivS(x, y)
         [] f = "divu"   -> DivU(x, y)
         [] f = "rem"    -> RemS(x, y)
         [] f = "remu"   -> RemU(x, y)

\* value an AMO stores: m is the memory operand, y is rs2
\* (only the low half of the result is used by the W forms)
AmoVal(f, w, m, y) ==
  LET a == IF w THEN SExtH(m) ELSE m
      b == IF w THEN SExtH(y) ELSE y
      \* sign extension of both keeps the unsigned order of halves
  IN CASE f = "swap" -> b
       [] f = "add"  -> Add(a, b)
       [] f = "xor"  -> WXor(a, b)
       [] f = "and"  -> WAnd(a, b)
       [] f = "or"   -> WOr(a, b)
       [] f = "min"  -> IF Lts(a, b) THEN a ELSE b
       [] f = "max"  -> IF Lts(a, b) THEN b ELSE a
       [] f = "minu" -> IF Ltu(a, b) THEN a ELSE b
       [] f = "maxu" -> IF Ltu(a, b) THEN b ELSE a

Taken(rv, f, x, y) ==
  LET sx == IF rv = 32 THEN SExtH(x) ELSE x
      sy == IF rv = 32 THEN SExtH(y) ELSE y
  IN CASE f = "eq"  -> x = y
       [] f = "ne"  -> x # y
       [] f = "lt"  -> Lts(sx, sy)
       [] f = "ge"  -> ~Lts(sx, sy)
       [] f = "ltu" -> Ltu(x, y)
       [] f = "geu" -> ~Ltu(x, y)
=============================================================================
