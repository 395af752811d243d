-------------------------------- MODULE Alu ---------------------------------
(***************************************************************************)
(* Results of the register-register / register-immediate instructions of   *)
(* I, M, Zba, Zbb, Zbc and Zbs, and of the atomic read-modify-write        *)
(* combinations.  `a` is the rs1 value, `b` the rs2 value or the immediate *)
(* (an immediate operation passes its sign-extended immediate).            *)
(***************************************************************************)
EXTENDS Word

Sh6(b) == b[1] % 64
Sh5(b) == b[1] % 32

\* 64-bit machine
Alu64(op, a, b) ==
  CASE op \in {"add", "addi"} -> Add(a, b)
    [] op = "sub" -> Sub(a, b)
    [] op \in {"and", "andi"} -> WAnd(a, b)
    [] op \in {"or", "ori"} -> WOr(a, b)
    [] op \in {"xor", "xori"} -> WXor(a, b)
    [] op \in {"slt", "slti"} -> Bool(Lt(a, b))
    [] op \in {"sltu", "sltiu"} -> Bool(Ltu(a, b))
    [] op \in {"sll", "slli"} -> Shl(a, Sh6(b))
    [] op \in {"srl", "srli"} -> Shr(a, Sh6(b))
    [] op \in {"sra", "srai"} -> Sra(a, Sh6(b))
    [] op \in {"addw", "addiw"} -> Sext32(Add(a, b))
    [] op = "subw" -> Sext32(Sub(a, b))
    [] op \in {"sllw", "slliw"} -> Sext32(Shl(a, Sh5(b)))
    [] op \in {"srlw", "srliw"} -> Sext32(Shr(Zext32(a), Sh5(b)))
    [] op \in {"sraw", "sraiw"} -> Sext32(Sra(Sext32(a), Sh5(b)))
    [] op = "mul" -> Mul(a, b)
    [] op = "mulh" -> Mulh(a, b)
    [] op = "mulhsu" -> Mulhsu(a, b)
    [] op = "mulhu" -> Mulhu(a, b)
    [] op = "mulw" -> Sext32(Mul(Zext32(a), Zext32(b)))
    [] op = "div" -> Div(a, b)
    [] op = "divu" -> Divu(a, b)
    [] op = "rem" -> Rem(a, b)
    [] op = "remu" -> Remu(a, b)
    [] op = "divw" -> Sext32(Div(Sext32(a), Sext32(b)))
    [] op = "divuw" -> Sext32(Divu(Zext32(a), Zext32(b)))
    [] op = "remw" -> Sext32(Rem(Sext32(a), Sext32(b)))
    [] op = "remuw" -> Sext32(Remu(Zext32(a), Zext32(b)))
    \* Zba
    [] op = "adduw" -> Add(Zext32(a), b)
    [] op = "sh1add" -> Add(Shl(a, 1), b)
    [] op = "sh2add" -> Add(Shl(a, 2), b)
    [] op = "sh3add" -> Add(Shl(a, 3), b)
    [] op = "sh1adduw" -> Add(Shl(Zext32(a), 1), b)
    [] op = "sh2adduw" -> Add(Shl(Zext32(a), 2), b)
    [] op = "sh3adduw" -> Add(Shl(Zext32(a), 3), b)
    [] op = "slliuw" -> Shl(Zext32(a), Sh6(b))
    \* Zbb
    [] op = "andn" -> WAnd(a, WNot(b))
    [] op = "orn" -> WOr(a, WNot(b))
    [] op = "xnor" -> WNot(WXor(a, b))
    [] op = "clz" -> W(Clz(a))
    [] op = "ctz" -> W(Ctz(a))
    [] op = "cpop" -> W(Cpop(a))
    [] op = "clzw" -> W(Clz(Zext32(a)) - 32)
    [] op = "ctzw" -> W(LET z == Zext32(a) IN IF z = Zero THEN 32 ELSE Ctz(z))
    [] op = "cpopw" -> W(Cpop(Zext32(a)))
    [] op = "max" -> IF Lt(a, b) THEN b ELSE a
    [] op = "maxu" -> IF Ltu(a, b) THEN b ELSE a
    [] op = "min" -> IF Lt(a, b) THEN a ELSE b
    [] op = "minu" -> IF Ltu(a, b) THEN a ELSE b
    [] op = "sextb" -> Sext8(a)
    [] op = "sexth" -> Sext16(a)
    [] op = "zexth" -> Zext16(a)
    [] op = "rol" -> Rol(a, Sh6(b))
    [] op \in {"ror", "rori"} -> Ror(a, Sh6(b))
    [] op = "rolw" -> Sext32(Rol32(a, Sh5(b)))
    [] op \in {"rorw", "roriw"} -> Sext32(Ror32(a, Sh5(b)))
    [] op = "orcb" -> OrcB(a)
    [] op = "rev8" -> Rev8(a)
    \* Zbc
    [] op = "clmul" -> Clmul(a, b)
    [] op = "clmulh" -> Clmulh(a, b)
    [] op = "clmulr" -> Clmulr(a, b)
    \* Zbs
    [] op \in {"bset", "bseti"} -> WOr(a, Shl(One, Sh6(b)))
    [] op \in {"bclr", "bclri"} -> WAnd(a, WNot(Shl(One, Sh6(b))))
    [] op \in {"binv", "binvi"} -> WXor(a, Shl(One, Sh6(b)))
    [] op \in {"bext", "bexti"} -> W(Bit(a, Sh6(b)))

(***************************************************************************)
(* 32-bit machine: values are kept zero-extended, so sign-sensitive        *)
(* operations are computed on the sign-extended operands and truncated.    *)
(***************************************************************************)
Alu32(op, a, b) ==
  LET s == Sext32(a)  t == Sext32(b)  z == Zext32(a)  y == Zext32(b)  n == Sh5(b) IN
  CASE op \in {"sll", "slli"} -> Zext32(Shl(z, n))
    [] op \in {"srl", "srli"} -> Shr(z, n)
    [] op \in {"sra", "srai"} -> Zext32(Sra(s, n))
    [] op \in {"sltu", "sltiu"} -> Bool(Ltu(z, y))
    [] op = "mulh" -> Zext32(Shr(Mul(s, t), 32))
    [] op = "mulhsu" -> Zext32(Shr(Mul(s, y), 32))
    [] op = "mulhu" -> Zext32(Shr(Mul(z, y), 32))
    [] op = "divu" -> Zext32(Divu(z, y))
    [] op = "remu" -> Zext32(Remu(z, y))
    [] op = "clz" -> W(Clz(z) - 32)
    [] op = "ctz" -> W(IF z = Zero THEN 32 ELSE Ctz(z))
    [] op = "cpop" -> W(Cpop(z))
    [] op = "maxu" -> IF Ltu(z, y) THEN y ELSE z
    [] op = "minu" -> IF Ltu(z, y) THEN z ELSE y
    [] op = "rol" -> Rol32(z, n)
    [] op \in {"ror", "rori"} -> Ror32(z, n)
    [] op = "orcb" -> Zext32(OrcB(z))
    [] op = "rev8" -> Shr(Rev8(z), 32)
    [] op = "clmul" -> Zext32(Clmul(z, y))
    [] op = "clmulh" -> Zext32(Shr(Clmul(z, y), 32))
    [] op = "clmulr" -> Zext32(Shr(Clmul(z, y), 31))
    [] op \in {"bset", "bseti"} -> WOr(z, Shl(One, n))
    [] op \in {"bclr", "bclri"} -> WAnd(z, WNot(Shl(One, n)))
    [] op \in {"binv", "binvi"} -> WXor(z, Shl(One, n))
    [] op \in {"bext", "bexti"} -> W(Bit(z, n))
    [] OTHER -> Zext32(Alu64(op, s, t))

Alu(op, a, b, x) == IF x = 64 THEN Alu64(op, a, b) ELSE Alu32(op, a, b)

\* atomic combination of the (sign-extended) memory value and the register
\* operand, for an access of 4 or 8 bytes; the result is truncated by the store
AmoOp(op, old, b, width) ==
  LET r == IF width = 4 THEN Sext32(b) ELSE b IN
  CASE op = "amoswap" -> r
    [] op = "amoadd" -> Add(old, r)
    [] op = "amoxor" -> WXor(old, r)
    [] op = "amoand" -> WAnd(old, r)
    [] op = "amoor" -> WOr(old, r)
    [] op = "amomin" -> IF Lt(old, r) THEN old ELSE r
    [] op = "amomax" -> IF Lt(old, r) THEN r ELSE old
    [] op = "amominu" -> IF Ltu(old, r) THEN old ELSE r
    [] op = "amomaxu" -> IF Ltu(old, r) THEN r ELSE old

\* instruction classes
ImmOps == {"addi", "slti", "sltiu", "xori", "ori", "andi", "slli", "srli", "srai", "addiw",
           "slliw", "srliw", "sraiw", "slliuw", "rori", "roriw", "bseti", "bclri", "binvi", "bexti"}
UnaryOps == {"clz", "ctz", "cpop", "clzw", "ctzw", "cpopw", "sextb", "sexth", "zexth", "orcb", "rev8"}
LoadOps == {"lb", "lh", "lw", "ld", "lbu", "lhu", "lwu"}
StoreOps == {"sb", "sh", "sw", "sd"}
BranchOps == {"beq", "bne", "blt", "bge", "bltu", "bgeu"}
AmoOps == {"amoswap", "amoadd", "amoxor", "amoand", "amoor", "amomin", "amomax", "amominu", "amomaxu"}
BlockEndOps == BranchOps \cup {"jal", "jalr", "ecall", "ebreak"}
=============================================================================
