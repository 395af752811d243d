-------------------------------- MODULE Fuse --------------------------------
(***************************************************************************)
(* Macro-operation fusion: which adjacent instruction groups are executed  *)
(* (and charged) as one operation.  FuseAt(s, v, pcSmall, pc) looks at the *)
(* sequence s of up to five decoded instructions starting at the program   *)
(* counter (shorter when the following bytes do not decode) and returns    *)
(* <<n, name>>: the number of instructions fused and the operation that is *)
(* charged.  n = 1 means no fusion.                                        *)
(***************************************************************************)
EXTENDS Word

Is(s, i, op) == i <= Len(s) /\ s[i].op = op

FuseAdc(s) ==
  /\ Is(s, 1, "add") /\ Is(s, 2, "sltu") /\ Is(s, 3, "add") /\ Is(s, 4, "sltu") /\ Is(s, 5, "or")
  /\ LET d == s[1].rd  a == s[1].rs2  c == s[3].rs2 IN
     /\ s[1].rs1 = d /\ a # d
     /\ s[2].rd = a /\ s[2].rs2 = a /\ s[2].rs1 = d
     /\ s[3].rd = d /\ s[3].rs1 = d /\ c # d /\ c # a
     /\ s[4].rd = c /\ s[4].rs2 = c /\ s[4].rs1 = d
     /\ s[5].rd = a /\ s[5].rs1 = a /\ s[5].rs2 = c
     /\ d # 0 /\ a # 0 /\ c # 0
FuseAdd3(s, k) == \* k = "a", "b", "c"
  /\ Is(s, 1, "add") /\ Is(s, 2, "sltu") /\ Is(s, 3, "add")
  /\ LET r0 == s[1].rd  r1 == s[1].rs1  r2 == s[2].rd  r4 == s[3].rs2 IN
     /\ r0 # r1 /\ r0 # r4 /\ r2 # r4 /\ r0 # 0 /\ r2 # 0
     /\ s[2].rs1 = r0 /\ s[2].rs2 = r1 /\ s[3].rs1 = r2
     /\ CASE k = "a" -> s[1].rs2 = r0
          [] k = "b" -> r2 = r1
          [] OTHER -> s[3].rd = r2
FuseAdcs(s) ==
  /\ Is(s, 1, "add") /\ Is(s, 2, "sltu")
  /\ LET r0 == s[1].rd
         swap == r0 = s[1].rs1 /\ r0 # s[1].rs2
         r1 == IF swap THEN s[1].rs2 ELSE s[1].rs1
     IN s[2].rs1 = r0 /\ s[2].rs2 = r1 /\ r0 # r1 /\ r0 # 0
FuseSbb(s) ==
  /\ Is(s, 1, "sub") /\ Is(s, 2, "sltu") /\ Is(s, 3, "sub") /\ Is(s, 4, "sltu") /\ Is(s, 5, "or")
  /\ LET a == s[1].rs1  b == s[1].rs2  n == s[2].rd  c == s[3].rs2 IN
     /\ s[1].rd = b /\ a # b
     /\ n # a /\ n # b /\ s[2].rs1 = a /\ s[2].rs2 = b
     /\ s[3].rd = a /\ s[3].rs1 = b /\ c # a /\ c # b /\ c # n
     /\ s[4].rd = c /\ s[4].rs1 = b /\ s[4].rs2 = a
     /\ s[5].rd = b /\ s[5].rs1 = c /\ s[5].rs2 = n
     /\ a # 0 /\ b # 0 /\ c # 0 /\ n # 0
FuseSbbs(s) ==
  /\ Is(s, 1, "sub") /\ Is(s, 2, "sltu")
  /\ s[2].rs1 = s[1].rs1 /\ s[2].rs2 = s[1].rs2
  /\ s[1].rd # s[1].rs1 /\ s[1].rd # s[1].rs2

\* does the 64-bit word fit the signed 32-bit range
Fits32(a) == a = Sext32(a)

FuseJump(s, v) == \* LUI / AUIPC followed by JALR with link register RA (x1)
  /\ Is(s, 2, "jalr") /\ s[2].rs1 = s[1].rd /\ s[2].rd = 1
  /\ v >= 2 => s[2].rs1 = 1
FuseWide(s) ==
  /\ Len(s) >= 2 /\ s[1].rd # s[1].rs1 /\ s[1].rd # s[1].rs2
  /\ s[2].rs1 = s[1].rs1 /\ s[2].rs2 = s[1].rs2 /\ s[2].rd # s[1].rd

FuseAt(s, v, pc) ==
  LET h == s[1] IN
  CASE h.op = "add" ->
         IF FuseAdc(s) THEN <<5, "adc">>
         ELSE IF v < 2 THEN <<1, h.op>>
         ELSE IF FuseAdd3(s, "a") \/ FuseAdd3(s, "b") \/ FuseAdd3(s, "c") THEN <<3, "add3">>
         ELSE IF FuseAdcs(s) THEN <<2, "adcs">> ELSE <<1, h.op>>
    [] h.op = "sub" ->
         IF FuseSbb(s) THEN <<5, "sbb">>
         ELSE IF v >= 2 /\ FuseSbbs(s) THEN <<2, "sbbs">> ELSE <<1, h.op>>
    [] h.op = "lui" ->
         IF FuseJump(s, v) /\ (v < 2 \/ Fits32(Add(h.imm, s[2].imm))) THEN <<2, "farjumpabs">>
         ELSE IF Is(s, 2, "addiw") /\ s[2].rs1 = h.rd /\ s[2].rd = h.rd THEN <<2, "loadimm">>
         ELSE <<1, h.op>>
    [] h.op = "auipc" ->
         IF FuseJump(s, v) /\ (v < 2 \/ Fits32(Add(h.imm, s[2].imm))) THEN <<2, "farjumprel">>
         ELSE IF v >= 2 /\ Is(s, 2, "addi") /\ s[2].rs1 = h.rd /\ s[2].rd = h.rd
                 /\ Fits32(pc) /\ Fits32(Add(h.imm, s[2].imm)) /\ Fits32(Add(Add(h.imm, s[2].imm), pc))
              THEN <<2, "loadimm">>
         ELSE <<1, h.op>>
    [] h.op \in {"mulh", "mulhu", "mulhsu"} ->
         IF Is(s, 2, "mul") /\ FuseWide(s) THEN <<2, "widemul">> ELSE <<1, h.op>>
    [] h.op = "div" -> IF Is(s, 2, "rem") /\ FuseWide(s) THEN <<2, "widediv">> ELSE <<1, h.op>>
    [] h.op = "divu" -> IF Is(s, 2, "remu") /\ FuseWide(s) THEN <<2, "widediv">> ELSE <<1, h.op>>
    [] OTHER -> <<1, h.op>>

FuseHeads == {"add", "sub", "lui", "auipc", "mulh", "mulhu", "mulhsu", "div", "divu"}
=============================================================================
