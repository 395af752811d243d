------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The virtual machine as a user sees it: registers, program counter,      *)
(* reservation, cycle counter and limit, guest memory, and one transition  *)
(* per executed instruction (or fused group).                              *)
(*                                                                         *)
(* cs : configuration                                                      *)
(*   x 32|64, v 0..2, eb / ea / mop booleans, cost name, sys sequence of   *)
(*   installed handlers, dbg breakpoint handler installed                  *)
(* m : machine state                                                       *)
(*   r registers (r[i+1] is xi), pc, lr, cyc, max, mem                     *)
(*   st "run" | "exit" | "err" | "pause", res [k, a] result of the last run *)
(*   n instructions executed in this run, jmp jumps since the pause signal *)
(*   sig pause signal pending, pend reset requested by a system call       *)
(*   rs resets requested so far, xc exit code                              *)
(*   tot instructions executed in earlier runs                             *)
(*   may pages on which a failed write may have left a dirty mark          *)
(***************************************************************************)
EXTENDS Decode, Alu, Mem, Fuse

Max64 == AllOnes
LrNone(x) == IF x = 64 THEN AllOnes ELSE Zext32(AllOnes)
RegsZero == [i \in 1..32 |-> Zero]

NewMachine(cs, sz, max) ==
  [r |-> RegsZero, pc |-> Zero, lr |-> LrNone(cs.x), cyc |-> Zero, max |-> max,
   mem |-> NewMemC(sz, cs.cz), st |-> "idle", res |-> [k |-> "", a |-> 0], n |-> 0, sig |-> FALSE,
   jmp |-> 0, pend |-> "", xc |-> 0, may |-> {}, rs |-> 0, tot |-> 0]

Trunc(cs, a) == IF cs.x = 64 THEN a ELSE Zext32(a)
Reg(m, i) == m.r[i + 1]
SetReg(m, i, val) == IF i = 0 THEN m ELSE [m EXCEPT !.r[i + 1] = val]
Err(m, k, a) == [m EXCEPT !.st = "err", !.res = [k |-> k, a |-> a]]

(***************************************************************************)
(* Cycles.                                                                 *)
(***************************************************************************)
Est(op) ==
  CASE op \in {"ld", "sd"} -> 2
    [] op \in {"lb", "lh", "lw", "lbu", "lhu", "lwu", "sb", "sh", "sw", "jal", "jalr",
               "farjumprel", "farjumpabs"} \cup BranchOps -> 3
    [] op \in {"ecall", "ebreak"} -> 500
    [] op \in {"mul", "mulw", "mulh", "mulhu", "mulhsu", "widemul"} -> 5
    [] op \in {"div", "divw", "divu", "divuw", "rem", "remw", "remu", "remuw", "widediv"} -> 32
    [] OTHER -> 1
Cost(cs, op, ins, len) ==
  CASE cs.cost = "one" -> One
    [] cs.cost = "est" -> IF op \in AmoOps \cup {"lr", "sc"} THEN W(IF ins.imm = W(4) THEN 4 ELSE 3)
                          ELSE W(Est(op))
    [] cs.cost = "len" -> W(len)                        \* bytes of code executed
    [] cs.cost = "big" -> W(1000003)
    [] cs.cost = "huge" -> <<0, 0, 0, 16384>>           \* 2^62
    [] OTHER -> Zero
\* charging: <<error, new counter>>
Charge(m, c) ==
  LET s == AddC(m.cyc, c) IN
  IF s[2] = 1 THEN <<"CyclesOverflow", m.cyc>>
  ELSE IF Ltu(m.max, s[1]) THEN <<"CyclesExceeded", m.cyc>>
  ELSE <<"", s[1]>>

(***************************************************************************)
(* Fetch and decode at an address: [e, a, ins].                            *)
(***************************************************************************)
FetchErr(e, a) == [e |-> e, a |-> a, ins |-> Inv(4), bits |-> <<0, 0>>]
ExecAt(mem, a, w) == \* w bytes of instruction at a (word): [e, a]
  IF ~InRange(mem, a, w) THEN <<"MemOutOfBound", 0>>
  ELSE LET p == BadPage(mem, Pages(Num(a), w), TRUE) IN
       IF p >= 0 THEN <<"MemWriteOnExecutablePage", p>> ELSE <<"", 0>>
Decoded(cs, pc, lo, hi) ==
  LET ins == DecodeBits(lo, hi, cs.x, cs.v, cs.eb, cs.ea)
  IN IF ins.op = "invalid"
     THEN [e |-> "InvalidInstruction", a |-> pc \o <<lo, hi>>, ins |-> ins, bits |-> <<lo, hi>>]
     ELSE [e |-> "", a |-> 0, ins |-> ins, bits |-> <<lo, hi>>]
\* An entry point may be odd (jumps never are).  Then an instruction that does
\* not start in the last two bytes of a page is fetched as four bytes, even if
\* it is a compressed one.
OddFetch(cs, mem, pc) ==
  LET wide == Low(pc, PageSize) < PageSize - 2
      c1 == ExecAt(mem, pc, IF wide THEN 4 ELSE 2)
  IN IF c1[1] # "" THEN FetchErr(c1[1], c1[2])
     ELSE LET lo == LoadW(mem, Num(pc), 2)[1]  rvc == IsRvc(lo)  pc2 == Add(pc, W(2))
              c2 == IF rvc \/ wide THEN <<"", 0>> ELSE ExecAt(mem, pc2, 2)
          IN IF c2[1] # "" THEN FetchErr(c2[1], c2[2])
             ELSE Decoded(cs, pc, lo, IF rvc THEN 0 ELSE LoadW(mem, Num(pc2), 2)[1])
Fetch(cs, mem, pc) ==
  IF ~InRange(mem, pc, 1) THEN FetchErr("MemOutOfBound", 0)
  ELSE IF pc[1] % 2 = 1 THEN OddFetch(cs, mem, pc)
  ELSE IF ~InRange(mem, pc, 2) THEN FetchErr("MemOutOfBound", 0)
  ELSE LET a == Num(pc)  p == a \div PageSize  i == a \div 2 IN
       IF ~HasExec(Flag(mem, p)) THEN FetchErr("MemWriteOnExecutablePage", p)
       ELSE LET lo == Hw(mem, i)  rvc == IsRvc(lo)  q == (a + 2) \div PageSize IN
            IF ~rvc /\ a + 2 >= mem.sz THEN FetchErr("MemOutOfBound", 0)
            ELSE IF ~rvc /\ ~HasExec(Flag(mem, q)) THEN FetchErr("MemWriteOnExecutablePage", q)
            ELSE Decoded(cs, pc, lo, IF rvc THEN 0 ELSE Hw(mem, i + 1))

\* up to n decodable instructions from pc on, stopping before the first failure
RECURSIVE Ahead(_, _, _, _)
Ahead(cs, mem, pc, n) ==
  IF n = 0 THEN <<>>
  ELSE LET f == Fetch(cs, mem, pc) IN
       IF f.e # "" THEN <<>> ELSE <<f.ins>> \o Ahead(cs, mem, Add(pc, W(f.ins.len)), n - 1)

(***************************************************************************)
(* One instruction; m.pc is its address.                                   *)
(***************************************************************************)
Adv(m, len, cs) == [m EXCEPT !.pc = Trunc(cs, Add(@, W(len)))]
Jump(m, to) == [m EXCEPT !.pc = to, !.jmp = @ + 1]

Width(op) == CASE op \in {"lb", "lbu", "sb"} -> 1 [] op \in {"lh", "lhu", "sh"} -> 2
               [] op \in {"lw", "lwu", "sw"} -> 4 [] OTHER -> 8
ExtendLoad(op, val) ==
  CASE op = "lb" -> Sext8(val) [] op = "lh" -> Sext16(val) [] op = "lw" -> Sext32(val) [] OTHER -> val

\* version 0 rejects loads that end exactly at the end of memory
LoadOk(cs, mem, a, w) == InRange(mem, a, w) /\ (cs.v >= 1 \/ Num(a) + w # mem.sz)

ExecLoad(cs, m, i) ==
  LET a == Trunc(cs, Add(Reg(m, i.rs1), i.imm))  w == Width(i.op) IN
  IF ~LoadOk(cs, m.mem, a, w) THEN Err(m, "MemOutOfBound", 0)
  ELSE SetReg(Adv(m, i.len, cs), i.rd, Trunc(cs, ExtendLoad(i.op, LoadW(m.mem, Num(a), w))))
ExecStore(cs, m, i) ==
  LET a == Trunc(cs, Add(Reg(m, i.rs1), i.imm))
      s == Store(m.mem, a, Width(i.op), Reg(m, i.rs2))
  IN IF s[1] # "" THEN Err(m, s[1], s[2]) ELSE Adv([m EXCEPT !.mem = s[3]], i.len, cs)
ExecBranch(cs, m, i) ==
  LET a == Reg(m, i.rs1)  b == Reg(m, i.rs2)
      sa == IF cs.x = 64 THEN a ELSE Sext32(a)  sb == IF cs.x = 64 THEN b ELSE Sext32(b)
      t == CASE i.op = "beq" -> a = b [] i.op = "bne" -> a # b
             [] i.op = "blt" -> Lt(sa, sb) [] i.op = "bge" -> ~Lt(sa, sb)
             [] i.op = "bltu" -> Ltu(a, b) [] OTHER -> ~Ltu(a, b)
  IN IF t THEN Jump(m, Trunc(cs, Add(m.pc, i.imm))) ELSE Adv(m, i.len, cs)
\* atomics: the old value goes to rd, the combination to memory
ExecAmo(cs, m, i) ==
  LET a == Reg(m, i.rs1)  w == i.imm[1] IN
  IF ~InRange(m.mem, a, w) THEN Err(m, "MemOutOfBound", 0)
  ELSE LET raw == LoadW(m.mem, Num(a), w)
           old == IF w = 4 THEN Sext32(raw) ELSE raw
           b == IF cs.x = 64 THEN Reg(m, i.rs2) ELSE Sext32(Reg(m, i.rs2))
           s == Store(m.mem, a, w, AmoOp(i.op, old, b, w))
       IN IF s[1] # "" THEN Err(m, s[1], s[2])
          ELSE SetReg(Adv([m EXCEPT !.mem = s[3]], i.len, cs), i.rd, Trunc(cs, old))
ExecLr(cs, m, i) ==
  LET a == Reg(m, i.rs1)  w == i.imm[1] IN
  IF ~InRange(m.mem, a, w) THEN Err(m, "MemOutOfBound", 0)
  ELSE LET raw == LoadW(m.mem, Num(a), w) IN
       SetReg(Adv([m EXCEPT !.lr = a], i.len, cs), i.rd, Trunc(cs, IF w = 4 THEN Sext32(raw) ELSE raw))
\* a store-conditional needs a writable target whether or not it succeeds
ExecSc(cs, m, i) ==
  LET a == Reg(m, i.rs1)  w == i.imm[1]  ok == m.lr = a
      c == CheckWrite(m.mem, a, w)
  IN IF c[1] # "" THEN Err(m, c[1], c[2])
     ELSE LET val == IF ok THEN Reg(m, i.rs2) ELSE LoadW(m.mem, Num(a), w)
              mem2 == Write(m.mem, Num(a), w, val)
          IN SetReg(Adv([m EXCEPT !.mem = mem2, !.lr = LrNone(cs.x)], i.len, cs),
                    i.rd, IF ok THEN Zero ELSE One)

(***************************************************************************)
(* Environment calls.  Number 93 exits.  The other numbers go to the       *)
(* installed handlers, in order; the handlers below are the ones the       *)
(* conformance harness installs (their effects are defined here).          *)
(*   handler "A": 2000 ..                                                  *)
(*   handler "B": accepts 2100, 2101; handler "C": accepts 2100, 2102;     *)
(*   handler "D": declines everything but counts the offers in x31 (t6)    *)
(***************************************************************************)
A0(m) == Reg(m, 10)
A1(m) == Reg(m, 11)
A2(m) == Reg(m, 12)
A7(m) == Reg(m, 17)
SysStore(m, s) == IF s[1] # "" THEN Err(m, s[1], s[2]) ELSE [m EXCEPT !.mem = s[3]]
AddCycles(m, c, checked) ==
  LET s == AddC(m.cyc, c) IN
  IF s[2] = 1 THEN Err(m, "CyclesOverflow", 0)
  ELSE IF checked /\ Ltu(m.max, s[1]) THEN Err(m, "CyclesExceeded", 0)
  ELSE [m EXCEPT !.cyc = s[1]]

\* <<accepted, machine>>
Handle(cs, h, num, m) ==
  LET w == cs.x \div 8 IN
  CASE h = "D" -> <<FALSE, SetReg(m, 31, Trunc(cs, Add(Reg(m, 31), One)))>>
    [] h = "B" -> IF num \in {2100, 2101} THEN <<TRUE, SetReg(m, 10, W(num + 1))>> ELSE <<FALSE, m>>
    [] h = "C" -> IF num \in {2100, 2102} THEN <<TRUE, SetReg(m, 10, W(num + 2))>> ELSE <<FALSE, m>>
    [] h = "A" ->
       (CASE num = 2000 -> <<TRUE, SetReg(m, 10, Trunc(cs, Add(A0(m), A1(m))))>>
          [] num = 2001 -> <<TRUE, SysStore(m, Store(m.mem, A0(m), w, A1(m)))>>
          [] num = 2002 -> <<TRUE, AddCycles(m, A0(m), TRUE)>>
          [] num = 2003 -> <<TRUE, Err(m, "External", 0)>>
          [] num = 2004 -> <<TRUE, [m EXCEPT !.sig = TRUE, !.jmp = 0]>>
          [] num = 2006 -> <<TRUE, IF InRange(m.mem, A0(m), 1)
                                   THEN SetReg(m, 10, LoadW(m.mem, Num(A0(m)), 1))
                                   ELSE Err(m, "MemOutOfBound", 0)>>
          [] num = 2007 -> <<TRUE, AddCycles(m, A0(m), FALSE)>>
          [] num = 2008 -> <<TRUE, SysStore(m, StoreBytes(m.mem, A0(m), A1(m)[1] % 64,
                                                        LAMBDA j : ((7 * j) + 1) % 256))>>
          [] num = 2009 -> <<TRUE, Err(m, "Yield", 0)>>
          [] num = 2010 -> <<TRUE, [m EXCEPT !.max = <<A0(m)[1] % 16384, 0, 0, 0>>]>>
          [] num = 2011 -> <<TRUE, IF Ltu(A0(m), W(m.mem.sz \div PageSize))
                                   THEN [m EXCEPT !.mem = SetFlags(@, {Num(A0(m))}, A1(m)[1] % 256)]
                                   ELSE Err(m, "MemOutOfBound", 0)>>
          [] num = 2012 -> <<TRUE, IF Ltu(A0(m), W(m.mem.sz \div PageSize))
                                   THEN [m EXCEPT !.mem = ClearFlags(@, {Num(A0(m))}, A1(m)[1] % 256)]
                                   ELSE Err(m, "MemOutOfBound", 0)>>
          [] num = 2014 -> \* copy a2 (< 64) bytes from a1 to a0
               LET n == A2(m)[1] % 64 IN
               <<TRUE,
                 IF n # 0 /\ ~InRange(m.mem, A1(m), n) THEN Err(m, "MemOutOfBound", 0)
                 ELSE SysStore(m, StoreBytes(m.mem, A0(m), n, LAMBDA j : ByteAt(m.mem, Num(A1(m)) + j)))>>
          [] num = 2005 -> \* reset with limit a0, then continue with program a1 of the case
               IF m.rs >= 6 THEN <<FALSE, m>> ELSE <<TRUE, [m EXCEPT !.pend = "reset", !.rs = @ + 1]>>
          [] OTHER -> <<FALSE, m>>)
    [] OTHER -> <<FALSE, m>>
RECURSIVE Offer(_, _, _, _)
Offer(cs, j, num, m) ==
  IF j > Len(cs.sys) THEN Err(m, "InvalidEcall", A7(m))
  ELSE LET h == Handle(cs, cs.sys[j], num, m) IN
       IF h[2].st = "err" THEN h[2]
       ELSE IF ~h[1] THEN Offer(cs, j + 1, num, h[2])
       ELSE IF Ltu(h[2].max, h[2].cyc) THEN Err(h[2], "CyclesExceeded", 0)
       ELSE h[2]
ExecEcall(cs, m, i) ==
  LET m1 == Adv(m, i.len, cs) IN
  IF A7(m) = W(93)
  THEN LET c == A0(m)[1] % 256  xc == IF c >= 128 THEN c - 256 ELSE c IN
       [m1 EXCEPT !.st = "exit", !.res = [k |-> "exit", a |-> xc], !.xc = xc]
  ELSE LET r == Offer(cs, 1, IF IsSmall(A7(m)) THEN Num(A7(m)) ELSE -1, m1)
       IN IF r.st = "err" THEN [r EXCEPT !.pc = m.pc] ELSE r
\* the harness's debugger: adds one to x30 (t5), and fails when x30 is 99
ExecEbreak(cs, m, i) ==
  LET m1 == Adv(m, i.len, cs) IN
  IF ~cs.dbg THEN m1
  ELSE IF Reg(m, 30) = W(99) THEN Err(m1, "External", 0)
  ELSE SetReg(m1, 30, Trunc(cs, Add(Reg(m, 30), One)))

Exec(cs, m, i) ==
  LET op == i.op IN
  CASE op \in LoadOps -> ExecLoad(cs, m, i)
    [] op \in StoreOps -> ExecStore(cs, m, i)
    [] op \in BranchOps -> ExecBranch(cs, m, i)
    [] op = "jal" -> SetReg(Jump(m, Trunc(cs, Add(m.pc, i.imm))), i.rd, Trunc(cs, Add(m.pc, W(i.len))))
    [] op = "jalr" ->
         LET link == Trunc(cs, Add(m.pc, W(i.len)))
             \* version 0 writes the link register before reading the base
             base == IF cs.v = 0 /\ i.rd = i.rs1 /\ i.rd # 0 THEN link ELSE Reg(m, i.rs1)
             t == Trunc(cs, Add(base, i.imm))
         IN SetReg(Jump(m, <<t[1] - (t[1] % 2), t[2], t[3], t[4]>>), i.rd, link)
    [] op = "lui" -> SetReg(Adv(m, i.len, cs), i.rd, Trunc(cs, i.imm))
    [] op = "auipc" -> SetReg(Adv(m, i.len, cs), i.rd, Trunc(cs, Add(m.pc, i.imm)))
    [] op \in {"fence", "fencei"} -> Adv(m, i.len, cs)
    [] op = "ecall" -> ExecEcall(cs, m, i)
    [] op = "ebreak" -> ExecEbreak(cs, m, i)
    [] op = "lr" -> ExecLr(cs, m, i)
    [] op = "sc" -> ExecSc(cs, m, i)
    [] op \in AmoOps -> ExecAmo(cs, m, i)
    [] op \in ImmOps -> SetReg(Adv(m, i.len, cs), i.rd, Alu(op, Reg(m, i.rs1), i.imm, cs.x))
    [] op \in UnaryOps -> SetReg(Adv(m, i.len, cs), i.rd, Alu(op, Reg(m, i.rs1), Zero, cs.x))
    [] OTHER -> SetReg(Adv(m, i.len, cs), i.rd, Alu(op, Reg(m, i.rs1), Reg(m, i.rs2), cs.x))

RECURSIVE ExecSeq(_, _, _, _)
ExecSeq(cs, m, s, n) == IF n = 0 \/ m.st = "err" THEN m ELSE ExecSeq(cs, Exec(cs, m, s[1]), Tail(s), n - 1)

(***************************************************************************)
(* One transition of a running machine: an instruction or a fused group.   *)
(***************************************************************************)
RECURSIVE SumLen(_, _)
SumLen(s, n) == IF n = 0 THEN 0 ELSE s[n].len + SumLen(s, n - 1)

\* version 1 fuses far jumps through any register without updating it, and
\* adds the two immediates in 32 bits
FarJumpV1(cs, m, s, name) ==
  LET t == Sext32(Add(s[1].imm, s[2].imm))
      to == Trunc(cs, IF name = "farjumpabs" THEN t ELSE Add(m.pc, t))
      link == Trunc(cs, Add(m.pc, W(s[1].len + s[2].len)))
  IN SetReg(Jump(m, <<to[1] - (to[1] % 2), to[2], to[3], to[4]>>), 1, link)

Step(cs, m) ==
  LET f == Fetch(cs, m.mem, m.pc) IN
  IF f.e # "" THEN Err(m, f.e, f.a)
  ELSE LET fuse == cs.mop /\ f.ins.op \in FuseHeads
           s == IF fuse THEN Ahead(cs, m.mem, m.pc, 5) ELSE <<f.ins>>
           g == IF fuse THEN FuseAt(s, cs.v, m.pc) ELSE <<1, f.ins.op>>
           c == Charge(m, Cost(cs, g[2], f.ins, SumLen(s, g[1])))
       IN IF c[1] # "" THEN Err(m, c[1], 0)
          ELSE LET m1 == [m EXCEPT !.cyc = c[2], !.n = @ + 1] IN
               IF cs.v = 1 /\ g[2] \in {"farjumpabs", "farjumprel"}
               THEN FarJumpV1(cs, m1, s, g[2])
               ELSE IF g[1] = 1 THEN Exec(cs, m1, f.ins)
               ELSE ExecSeq(cs, m1, s, g[1])
=============================================================================
