------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Instruction formats of RV32/RV64 I, M, A, C, Zba, Zbb, Zbc, Zbs as the  *)
(* VM accepts them: (lo, hi) halfwords -> instruction record               *)
(*   [op, rd, rs1, rs2, imm, len]                                          *)
(* op = "invalid" when the bits name no enabled instruction.               *)
(*                                                                         *)
(* x = XLEN, v = VM version, eb / ea = B / A extension enabled.            *)
(***************************************************************************)
EXTENDS Word

Sgn(val, bits) == IF val >= 2^(bits - 1) THEN val - 2^bits ELSE val
I4(op, rd, rs1, rs2, imm) == [op |-> op, rd |-> rd, rs1 |-> rs1, rs2 |-> rs2, imm |-> imm, len |-> 4]
I2(op, rd, rs1, rs2, imm) == [op |-> op, rd |-> rd, rs1 |-> rs1, rs2 |-> rs2, imm |-> imm, len |-> 2]
Inv(len) == [op |-> "invalid", rd |-> 0, rs1 |-> 0, rs2 |-> 0, imm |-> Zero, len |-> len]

IsRvc(lo) == lo % 4 # 3

LoadOp == <<"lb", "lh", "lw", "ld", "lbu", "lhu", "lwu", "">>
StoreOp == <<"sb", "sh", "sw", "sd", "", "", "", "">>
BranchOp == <<"beq", "bne", "", "", "blt", "bge", "bltu", "bgeu">>
MOp == <<"mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu">>
MWOp == <<"mulw", "", "", "", "divw", "divuw", "remw", "remuw">>

\* R-type register-register operations: opcode 0x33
OpReg(f3, f7, eb) ==
  CASE f7 = 0 -> <<"add", "sll", "slt", "sltu", "xor", "srl", "or", "and">>[f3 + 1]
    [] f7 = 1 -> MOp[f3 + 1]
    [] f7 = 32 -> IF f3 = 0 THEN "sub" ELSE IF f3 = 5 THEN "sra"
                  ELSE IF eb THEN <<"", "", "", "", "xnor", "", "orn", "andn">>[f3 + 1] ELSE ""
    [] f7 = 5 /\ eb -> <<"", "clmul", "clmulr", "clmulh", "min", "minu", "max", "maxu">>[f3 + 1]
    [] f7 = 16 /\ eb -> <<"", "", "sh1add", "", "sh2add", "", "sh3add", "">>[f3 + 1]
    [] f7 = 48 /\ eb -> <<"", "rol", "", "", "", "ror", "", "">>[f3 + 1]
    [] f7 = 52 /\ eb -> IF f3 = 1 THEN "binv" ELSE ""
    [] f7 = 20 /\ eb -> IF f3 = 1 THEN "bset" ELSE ""
    [] f7 = 36 /\ eb -> IF f3 = 1 THEN "bclr" ELSE IF f3 = 5 THEN "bext" ELSE ""
    [] OTHER -> ""

\* opcode 0x3b (RV64 only)
OpReg32(f3, f7, rs2, eb) ==
  CASE f7 = 0 -> <<"addw", "sllw", "", "", "", "srlw", "", "">>[f3 + 1]
    [] f7 = 1 -> MWOp[f3 + 1]
    [] f7 = 32 -> IF f3 = 0 THEN "subw" ELSE IF f3 = 5 THEN "sraw" ELSE ""
    [] f7 = 4 /\ eb -> IF f3 = 0 THEN "adduw" ELSE IF f3 = 4 /\ rs2 = 0 THEN "zexth" ELSE ""
    [] f7 = 16 /\ eb -> <<"", "", "sh1adduw", "", "sh2adduw", "", "sh3adduw", "">>[f3 + 1]
    [] f7 = 48 /\ eb -> IF f3 = 1 THEN "rolw" ELSE IF f3 = 5 THEN "rorw" ELSE ""
    [] OTHER -> ""

\* unary B operations of opcode 0x13: by (f7, f3, rs2)
OpUnary(f3, f7, rs2) ==
  CASE f7 = 20 /\ f3 = 5 /\ rs2 = 7 -> "orcb"
    [] f7 = 53 /\ f3 = 5 /\ rs2 = 24 -> "rev8"
    [] f7 = 48 /\ f3 = 1 -> (CASE rs2 = 0 -> "clz" [] rs2 = 1 -> "ctz" [] rs2 = 2 -> "cpop"
                               [] rs2 = 4 -> "sextb" [] rs2 = 5 -> "sexth" [] OTHER -> "")
    [] OTHER -> ""
\* shift-immediate forms by 6-bit function
OpShiftI(f3, f6, eb) ==
  CASE f6 = 0 -> IF f3 = 1 THEN "slli" ELSE "srli"
    [] f6 = 16 -> IF f3 = 5 THEN "srai" ELSE ""
    [] f6 = 18 /\ eb -> IF f3 = 1 THEN "bclri" ELSE "bexti"
    [] f6 = 26 /\ eb -> IF f3 = 1 THEN "binvi" ELSE ""
    [] f6 = 10 /\ eb -> IF f3 = 1 THEN "bseti" ELSE ""
    [] f6 = 24 /\ eb -> IF f3 = 5 THEN "rori" ELSE ""
    [] OTHER -> ""

AmoName(f5) ==
  CASE f5 = 2 -> "lr" [] f5 = 3 -> "sc" [] f5 = 1 -> "amoswap" [] f5 = 0 -> "amoadd"
    [] f5 = 4 -> "amoxor" [] f5 = 12 -> "amoand" [] f5 = 8 -> "amoor" [] f5 = 16 -> "amomin"
    [] f5 = 20 -> "amomax" [] f5 = 24 -> "amominu" [] f5 = 28 -> "amomaxu" [] OTHER -> ""

Decode32(lo, hi, x, v, eb, ea) ==
  LET opc == lo % 128
      rd == (lo \div 128) % 32
      f3 == (lo \div 4096) % 8
      rs1 == (lo \div 32768) + (hi % 16) * 2
      rs2 == (hi \div 16) % 32
      f7 == hi \div 512
      immI == SX(Sgn(hi \div 16, 12))
      r64 == x = 64
      Mk(op, imm) == IF op = "" THEN Inv(4) ELSE I4(op, rd, rs1, rs2, imm)
  IN
  CASE opc = 55 \/ opc = 23 ->   \* LUI, AUIPC
         LET s == IF hi >= 32768 THEN 65535 ELSE 0 IN
         I4(IF opc = 55 THEN "lui" ELSE "auipc", rd, 0, 0, <<(lo \div 4096) * 4096, hi, s, s>>)
    [] opc = 111 ->              \* JAL
         LET i == (hi \div 32768) * 1048576 + ((hi % 16) * 16 + lo \div 4096) * 4096
                  + ((hi \div 16) % 2) * 2048 + ((hi \div 32) % 1024) * 2
         IN I4("jal", rd, 0, 0, SX(Sgn(i, 21)))
    [] opc = 103 -> IF f3 = 0 THEN I4("jalr", rd, rs1, 0, immI) ELSE Inv(4)
    [] opc = 3 -> IF ~r64 /\ f3 \in {3, 6} THEN Inv(4) ELSE Mk(LoadOp[f3 + 1], immI)
    [] opc = 35 ->
         IF ~r64 /\ f3 = 3 THEN Inv(4)
         ELSE Mk(StoreOp[f3 + 1], SX(Sgn(f7 * 32 + rd, 12)))
    [] opc = 99 ->
         LET i == (f7 \div 64) * 4096 + (rd % 2) * 2048 + (f7 % 64) * 32 + (rd \div 2) * 2
         IN Mk(BranchOp[f3 + 1], SX(Sgn(i, 13)))
    [] opc = 19 ->
         IF f3 \in {1, 5}
         THEN LET u == IF eb THEN OpUnary(f3, f7, rs2) ELSE "" IN
              IF u # "" THEN I4(u, rd, rs1, 0, Zero)
              ELSE Mk(OpShiftI(f3, f7 \div 2, eb), W(((hi \div 16) % 64) % x))
         ELSE Mk(<<"addi", "", "slti", "sltiu", "xori", "", "ori", "andi">>[f3 + 1], immI)
    [] opc = 51 -> Mk(OpReg(f3, f7, eb), Zero)
    [] opc = 27 /\ r64 ->
         (CASE f3 = 0 -> I4("addiw", rd, rs1, 0, immI)
            [] f3 = 1 -> (CASE f7 = 0 -> I4("slliw", rd, rs1, 0, W(rs2))
                            [] f7 \div 2 = 2 /\ eb -> I4("slliuw", rd, rs1, 0, W((hi \div 16) % 64))
                            [] f7 = 48 /\ eb ->
                                 Mk(CASE rs2 = 0 -> "clzw" [] rs2 = 1 -> "ctzw"
                                      [] rs2 = 2 -> "cpopw" [] OTHER -> "", Zero)
                            [] OTHER -> Inv(4))
            [] f3 = 5 -> (CASE f7 = 0 -> I4("srliw", rd, rs1, 0, W(rs2))
                            [] f7 = 32 -> I4("sraiw", rd, rs1, 0, W(rs2))
                            [] f7 = 48 /\ eb -> I4("roriw", rd, rs1, 0, W(rs2))
                            [] OTHER -> Inv(4))
            [] OTHER -> Inv(4))
    [] opc = 59 /\ r64 -> Mk(OpReg32(f3, f7, rs2, eb), Zero)
    [] opc = 15 ->
         IF lo = 4111 /\ hi = 0 THEN I4("fencei", 0, 0, 0, Zero)
         ELSE IF lo = 15 /\ hi % 16 = 0 THEN I4("fence", 0, 0, 0, Zero)
         ELSE Inv(4)
    [] opc = 115 ->
         IF lo = 115 /\ hi = 0 THEN I4("ecall", 0, 0, 0, Zero)
         ELSE IF lo = 115 /\ hi = 16 THEN I4("ebreak", 0, 0, 0, Zero)
         ELSE Inv(4)
    [] opc = 47 /\ ea ->
         LET nm == AmoName(f7 \div 4) IN
         IF nm = "" \/ ~(f3 = 2 \/ (f3 = 3 /\ r64)) \/ (nm = "lr" /\ rs2 # 0) THEN Inv(4)
         ELSE I4(IF nm = "lr" THEN "lr" ELSE IF nm = "sc" THEN "sc" ELSE nm,
                 rd, rs1, rs2, W(IF f3 = 2 THEN 4 ELSE 8))   \* imm = access width
    [] OTHER -> Inv(4)

(***************************************************************************)
(* Compressed instructions.  HINT encodings are no-ops from version 1 on   *)
(* and invalid in version 0 (except zero shifts, which are always no-ops). *)
(***************************************************************************)
Nop2 == I2("addi", 0, 0, 0, Zero)
B(lo, i) == (lo \div 2^i) % 2
F(lo, i, n) == (lo \div 2^i) % 2^n

DecodeC(lo, x, v) ==
  LET q == lo % 4
      f3 == lo \div 8192
      r64 == x = 64
      rdp == F(lo, 2, 3) + 8        \* bits 4:2
      rsp == F(lo, 7, 3) + 8        \* bits 9:7
      rd == F(lo, 7, 5)
      rs2 == F(lo, 2, 5)
      imm6 == SX(Sgn(B(lo, 12) * 32 + F(lo, 2, 5), 6))
      uimm6 == B(lo, 12) * 32 + F(lo, 2, 5)
      Hint == IF v >= 1 THEN Nop2 ELSE Inv(2)
      uw == B(lo, 6) * 4 + F(lo, 10, 3) * 8 + B(lo, 5) * 64              \* lw/sw offset
      ud == F(lo, 10, 3) * 8 + F(lo, 5, 2) * 64                         \* ld/sd offset
      jimm == B(lo, 12) * 2048 + B(lo, 11) * 16 + F(lo, 9, 2) * 256 + B(lo, 8) * 1024
              + B(lo, 7) * 64 + B(lo, 6) * 128 + F(lo, 3, 3) * 2 + B(lo, 2) * 32
      bimm == B(lo, 12) * 256 + F(lo, 10, 2) * 8 + F(lo, 5, 2) * 64 + F(lo, 3, 2) * 2
              + B(lo, 2) * 32
  IN
  CASE q = 0 ->
        (CASE f3 = 0 ->
                LET n == B(lo, 6) * 4 + B(lo, 5) * 8 + F(lo, 11, 2) * 16 + F(lo, 7, 4) * 64 IN
                IF n = 0 THEN Inv(2) ELSE I2("addi", rdp, 2, 0, W(n))
           [] f3 = 2 -> I2("lw", rdp, rsp, 0, W(uw))
           [] f3 = 3 /\ r64 -> I2("ld", rdp, rsp, 0, W(ud))
           [] f3 = 6 -> I2("sw", 0, rsp, rdp, W(uw))
           [] f3 = 7 /\ r64 -> I2("sd", 0, rsp, rdp, W(ud))
           [] OTHER -> Inv(2))
    [] q = 1 ->
        (CASE f3 = 0 ->
                IF uimm6 = 0 /\ rd = 0 THEN Nop2
                ELSE IF rd = 0 \/ uimm6 = 0 THEN Hint
                ELSE I2("addi", rd, rd, 0, imm6)
           [] f3 = 1 ->
                IF ~r64 THEN I2("jal", 1, 0, 0, SX(Sgn(jimm, 12)))
                ELSE IF rd = 0 THEN Inv(2) ELSE I2("addiw", rd, rd, 0, imm6)
           [] f3 = 2 -> IF rd = 0 THEN Hint ELSE I2("addi", rd, 0, 0, imm6)
           [] f3 = 3 ->
                IF uimm6 = 0 THEN Inv(2)
                ELSE IF rd = 2
                THEN I2("addi", 2, 2, 0,
                        SX(Sgn(B(lo, 12) * 512 + B(lo, 6) * 16 + B(lo, 5) * 64 + F(lo, 3, 2) * 128
                               + B(lo, 2) * 32, 10)))
                ELSE IF rd = 0 THEN Hint
                ELSE I2("lui", rd, 0, 0, SX(Sgn(uimm6, 6) * 4096))
           [] f3 = 4 ->
                LET k == F(lo, 10, 2) IN
                (CASE k = 0 \/ k = 1 ->
                        \* shift by zero: a HINT, always accepted as a no-op
                        IF uimm6 = 0 THEN Nop2
                        ELSE I2(IF k = 0 THEN "srli" ELSE "srai", rsp, rsp, 0, W(uimm6 % x))
                   [] k = 2 -> I2("andi", rsp, rsp, 0, imm6)
                   [] OTHER ->
                        LET g == F(lo, 5, 2) IN
                        IF B(lo, 12) = 0
                        THEN I2(<<"sub", "xor", "or", "and">>[g + 1], rsp, rsp, rdp, Zero)
                        ELSE IF r64 /\ g = 0 THEN I2("subw", rsp, rsp, rdp, Zero)
                        ELSE IF r64 /\ g = 1 THEN I2("addw", rsp, rsp, rdp, Zero)
                        ELSE Inv(2))
           [] f3 = 5 -> I2("jal", 0, 0, 0, SX(Sgn(jimm, 12)))
           [] f3 = 6 -> I2("beq", 0, rsp, 0, SX(Sgn(bimm, 9)))
           [] OTHER -> I2("bne", 0, rsp, 0, SX(Sgn(bimm, 9))))
    [] OTHER ->
        (CASE f3 = 0 ->
                IF rd # 0 /\ uimm6 # 0 THEN I2("slli", rd, rd, 0, W(uimm6 % x)) ELSE Hint
           [] f3 = 2 ->
                IF rd = 0 THEN Inv(2)
                ELSE I2("lw", rd, 2, 0, W(B(lo, 12) * 32 + F(lo, 4, 3) * 4 + F(lo, 2, 2) * 64))
           [] f3 = 3 /\ r64 ->
                IF rd = 0 THEN Inv(2)
                ELSE I2("ld", rd, 2, 0, W(B(lo, 12) * 32 + F(lo, 5, 2) * 8 + F(lo, 2, 3) * 64))
           [] f3 = 4 ->
                IF B(lo, 12) = 0
                THEN IF rs2 = 0 THEN (IF rd = 0 THEN Inv(2) ELSE I2("jalr", 0, rd, 0, Zero))
                     ELSE IF rd = 0 THEN Hint ELSE I2("add", rd, 0, rs2, Zero)
                ELSE IF rs2 = 0 THEN (IF rd = 0 THEN I2("ebreak", 0, 0, 0, Zero)
                                      ELSE I2("jalr", 1, rd, 0, Zero))
                     ELSE IF rd = 0 THEN Hint ELSE I2("add", rd, rd, rs2, Zero)
           [] f3 = 6 -> I2("sw", 0, 2, rs2, W(F(lo, 9, 4) * 4 + F(lo, 7, 2) * 64))
           [] f3 = 7 /\ r64 -> I2("sd", 0, 2, rs2, W(F(lo, 10, 3) * 8 + F(lo, 7, 3) * 64))
           [] OTHER -> Inv(2))

DecodeBits(lo, hi, x, v, eb, ea) ==
  IF IsRvc(lo) THEN DecodeC(lo, x, v) ELSE Decode32(lo, hi, x, v, eb, ea)
=============================================================================
