-------------------------------- MODULE LrSc ---------------------------------
(***************************************************************************)
(* All programs of up to Depth atomic instructions, reservations and       *)
(* stores on two neighbouring double words, with every register aliasing:  *)
(* x5 is a plain destination, x10 and x11 point to the first and the       *)
(* second double word, x13 to the upper half of the first, x12 holds a     *)
(* value.  Pointers may be overwritten, then they point elsewhere.         *)
(*                                                                         *)
(* Ok states what C02 demands of each instruction in its own words.        *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils
CONSTANTS X, Depth
Sample == atoi(IOEnv.SAMPLE)
VARIABLES m, hist
vars == <<m, hist>>

CSx == [x |-> X, v |-> 2, eb |-> TRUE, ea |-> TRUE, mop |-> FALSE, cost |-> "one", sys |-> <<>>, dbg |-> FALSE, cz |-> FALSE]
D0 == 32768
Old == <<8721, 17459, 26197, 65535>>
Val == <<65535, 4660, 65279, 1>>
I(op, rd, rs1, rs2, w) == I4(op, rd, rs1, rs2, W(w))
Ws == IF X = 64 THEN {4, 8} ELSE {4}
Ptr == IF X = 64 THEN {10, 11, 13} ELSE {10, 11}
Lrs == {I("lr", rd, a, 0, w) : rd \in {0, 5, 10}, a \in Ptr, w \in Ws}
Scs == {I("sc", rd, a, b, w) : rd \in {0, 5, 10, 12}, a \in Ptr, b \in {10, 12}, w \in Ws}
Amos == {I(o, rd, 10, b, w) : o \in {"amoadd", "amoswap", "amominu"}, rd \in {5, 10, 12}, b \in {10, 12}, w \in Ws}
Sts == {I4(IF w = 8 THEN "sd" ELSE "sw", 0, a, 12, Zero) : a \in {10, 11}, w \in Ws}
Alphabet == Lrs \cup Scs \cup Amos \cup Sts
Bytes2 == D0..(D0 + 15)
At(mm, a) == ByteAt(mm.mem, a)
InMem(mm, i) == InRange(mm.mem, mm.r[i + 1], 8)

\* the value of w bytes at a, sign extended and cut to the register width
Sx(mm, a, w) == LET v == LoadW(mm.mem, Num(a), w) IN Trunc(CSx, IF w = 4 THEN Sext32(v) ELSE v)
Ok(i, s, t) == \* instruction i takes s to t
  LET a == Reg(s, i.rs1)  w == i.imm[1]
      only == \A k \in 1..32 : k # i.rd + 1 => t.r[k] = s.r[k]
      same == \A b \in Bytes2 : At(s, b) = At(t, b)
      within(b) == b >= Num(a) /\ b < Num(a) + w
      others == \A b \in Bytes2 : ~within(b) => At(s, b) = At(t, b)
      put(v) == LoadW(t.mem, Num(a), w) = (IF w = 4 THEN Zext32(v) ELSE v)
      res(v) == t.r[i.rd + 1] = IF i.rd = 0 THEN Zero ELSE v
  IN
  /\ t.r[1] = Zero
  /\ t.st = "run" =>
     /\ t.pc = Add(s.pc, W(4))
     /\ CASE i.op = "lr" -> only /\ same /\ t.lr = a /\ res(Sx(s, a, w))
          [] i.op = "sc" ->
               /\ only /\ others /\ t.lr = LrNone(X)
               /\ IF s.lr = a THEN res(Zero) /\ put(Reg(s, i.rs2)) ELSE res(One) /\ same
          [] i.op \in {"sd", "sw"} -> t.lr = s.lr /\ t.r = s.r
          [] OTHER -> only /\ others /\ t.lr = s.lr /\ res(Sx(s, a, w))
                      /\ LET v == Reg(s, i.rs2)  u == Sx(s, a, w) IN
                         CASE i.op = "amoswap" -> put(v)
                           [] i.op = "amoadd" -> put(Add(u, v))
                           [] OTHER -> put(IF (IF w = 4 THEN Ltu(Zext32(v), Zext32(u)) ELSE Ltu(v, u)) THEN v ELSE u)
  /\ t.st = "err" => same /\ t.lr = s.lr

Start == LET z == NewMachine(CSx, 65536, AllOnes) IN
  [z EXCEPT !.st = "run", !.r[11] = W(D0), !.r[12] = W(D0 + 8), !.r[13] = Trunc(CSx, Val), !.r[14] = W(D0 + 4),
            !.mem.wr = TLCEval([k \in (D0 \div 2)..(D0 \div 2 + 7) |-> Old[1 + (k % 4)]])]
\* memory in one form
Norm(mm) == [mm EXCEPT !.mem.wr = TLCEval([k \in (D0 \div 2)..(D0 \div 2 + 7) |-> Hw(mm.mem, k)]), !.mem.fl = EmptyFn]
Init == m = Start /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth /\ m.st = "run"
  /\ \E i \in Alphabet :
       LET t == Exec(CSx, m, i) IN
       /\ Assert(Ok(i, m, t), <<"transition", hist, i>>)
       /\ m' = Norm(t)
       /\ hist' = Append(hist, <<i.op, i.rd, i.rs1, i.rs2, i.imm[1]>>)
       /\ RandomElement(1..Sample) = 1 => PrintT("@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
View == <<m.r, m.lr, m.st, m.mem.wr>>
=============================================================================
