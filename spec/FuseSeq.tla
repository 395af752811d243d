------------------------------- MODULE FuseSeq --------------------------------
(***************************************************************************)
(* Register aliasing of fusible instruction groups.                        *)
(*                                                                         *)
(* Every state is a short instruction sequence: for two- and               *)
(* three-instruction patterns all register assignments; for the            *)
(* five-instruction patterns all matching ones with up to one register     *)
(* changed.  Neutral: whenever the sequence is fused, computing the whole  *)
(* group at once - reading all its sources first, then writing its         *)
(* results - gives what the instructions give one by one.                  *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

CONSTANT Kinds
Sample == atoi(IOEnv.SAMPLE)
VARIABLES s, hd
R == {0, 5, 6, 7}
R3 == {5, 6, 7}
O(op, rd, rs1, rs2) == I4(op, rd, rs1, rs2, Zero)

\* a five-instruction sequence with field f (1..15) replaced by register r
Change(q, f, r) ==
  LET i == ((f - 1) \div 3) + 1  k == (f - 1) % 3 IN
  [q EXCEPT ![i] = CASE k = 0 -> [@ EXCEPT !.rd = r] [] k = 1 -> [@ EXCEPT !.rs1 = r] [] OTHER -> [@ EXCEPT !.rs2 = r]]
Near(S) == S \cup {Change(q, f, r) : q \in S, f \in 1..15, r \in R}
AdcBase == {<<O("add", d, d, a), O("sltu", a, d, a), O("add", d, d, c), O("sltu", c, d, c), O("or", a, a, c)>> :
              d \in {hd[2]}, a \in R, c \in R}
SbbBase == {<<O("sub", b, a, b), O("sltu", n, a, b), O("sub", a, b, c), O("sltu", c, b, a), O("or", b, c, n)>> :
              a \in R3 \cup {28}, b \in {hd[2]}, n \in R3 \cup {28}, c \in R}
Pair(o1, o2, S) == {<<O(o1, a, b, c), O(o2, d, e, f)>> : a \in S \cap {hd[2]}, b \in S, c \in S, d \in S, e \in S, f \in S}
Seqs == \* of kind hd[1], the first register being hd[2]
  [ adc |-> Near(AdcBase), sbb |-> Near(SbbBase),
    add3 |-> {<<O("add", a, b, c), O("sltu", d, e, f), O("add", g, h, i)>> :
                a \in R3 \cap {hd[2]}, b \in R3, c \in R3, d \in R3, e \in R3, f \in R3, g \in R3, h \in R3, i \in R3 \cup {0}},
    adcs |-> Pair("add", "sltu", R), sbbs |-> Pair("sub", "sltu", R),
    mulh |-> Pair("mulh", "mul", R), mulhu |-> Pair("mulhu", "mul", R3), mulhsu |-> Pair("mulhsu", "mul", R3),
    div |-> Pair("div", "rem", R), divu |-> Pair("divu", "remu", R3),
    cross |-> Pair("div", "remu", R3) \cup Pair("mulh", "mulw", R3) \cup Pair("sub", "slt", R3) ]

\* register values before: carries and borrows in several places
Before == << [i \in 1..32 |-> IF i = 1 THEN Zero ELSE W(i)],
             [i \in 1..32 |-> CASE i = 1 -> Zero [] i = 6 -> AllOnes [] i = 7 -> W(2) [] i = 8 -> One [] OTHER -> AllOnes],
             [i \in 1..32 |-> CASE i = 1 -> Zero [] i = 6 -> One [] i = 7 -> <<0, 0, 0, 32768>> [] i = 8 -> AllOnes [] OTHER -> W(3)] >>

V == 2
CSx == [x |-> 64, v |-> V, eb |-> TRUE, ea |-> TRUE, mop |-> TRUE, cost |-> "one", sys |-> <<>>, dbg |-> FALSE, cz |-> FALSE]
M0(r) == [NewMachine(CSx, 4096, AllOnes) EXCEPT !.r = r, !.st = "run"]
Set(r, i, val) == IF i = 0 THEN r ELSE [r EXCEPT ![i + 1] = val]
Lt1(a, b) == IF Ltu(a, b) THEN One ELSE Zero

\* the registers after the fused group, computed at once
AtOnce(name, r) ==
  LET v(i) == r[i + 1]
      a1 == v(s[1].rs1)  b1 == v(s[1].rs2)
  IN
  CASE name = "adc" ->
         LET t == Add(v(s[1].rd), v(s[1].rs2))  k1 == Lt1(t, v(s[1].rs2))
             u == Add(t, v(s[3].rs2))  k2 == Lt1(u, v(s[3].rs2))
         IN Set(Set(Set(r, s[1].rd, u), s[4].rd, k2), s[5].rd, IF k1 = One \/ k2 = One THEN One ELSE Zero)
    [] name = "sbb" ->
         LET t == Sub(a1, b1)  k1 == Lt1(a1, b1)
             u == Sub(t, v(s[3].rs2))  k2 == Lt1(t, u)
         IN Set(Set(Set(Set(r, s[2].rd, k1), s[3].rd, u), s[4].rd, k2), s[5].rd, IF k1 = One \/ k2 = One THEN One ELSE Zero)
    [] name = "add3" ->
         LET t == Add(a1, b1)  k == Lt1(t, a1) IN
         Set(Set(Set(r, s[1].rd, t), s[2].rd, k), s[3].rd, Add(k, v(s[3].rs2)))
    [] name = "adcs" ->
         LET t == Add(a1, b1) IN Set(Set(r, s[1].rd, t), s[2].rd, Lt1(t, a1))
    [] name = "sbbs" -> Set(Set(r, s[1].rd, Sub(a1, b1)), s[2].rd, Lt1(a1, b1))
    [] name \in {"widemul", "widediv"} ->
         Set(Set(r, s[1].rd, Alu(s[1].op, a1, b1, 64)), s[2].rd, Alu(s[2].op, a1, b1, 64))

RECURSIVE Seq2(_, _, _)
Seq2(m, q, n) == IF n = 0 THEN m ELSE Seq2(Exec(CSx, m, q[1]), Tail(q), n - 1)
Neutral ==
  LET g == IF s = <<>> THEN <<1, "">> ELSE FuseAt(s, V, Zero) IN
  g[1] > 1 => \A k \in 1..Len(Before) : Seq2(M0(Before[k]), s, g[1]).r = AtOnce(g[2], Before[k])
Print1 == s # <<>> /\ RandomElement(1..Sample) = 1 =>
            PrintT("@CASE " \o ToJson([i \in 1..Len(s) |-> <<s[i].op, s[i].rd, s[i].rs1, s[i].rs2>>]))
Init == s = <<>> /\ hd \in Kinds \X R
Next == s = <<>> /\ s' \in Seqs[hd[1]] /\ hd' = <<"", 0>>
Spec == Init /\ [][Next]_<<s, hd>>
=============================================================================
