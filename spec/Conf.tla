-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance of recorded executions with the machine specification.      *)
(*                                                                         *)
(* Each case is a configuration and a script of host-level operations      *)
(* together with what the real code answered (field `o` of each entry).    *)
(* This module replays the script on the specified machine - a "run" entry *)
(* unfolds into Step transitions - and compares.  A disagreement prints    *)
(* one "@BAD" line; every case that was replayed prints one "@END" line,   *)
(* and the runner insists on seeing it.                                    *)
(*                                                                         *)
(* Memory is compared through differences: the recorder reports, in `d`,   *)
(* every halfword whose value differs from the mirror, which is the zero   *)
(* memory with the successful page initialisations applied.                *)
(*                                                                         *)
(* Engine classes (field cls of a case)                                    *)
(*   "i"  interpreters and single steps: everything is determined          *)
(*   "t"  trace engines: they decode and charge a straight-line block      *)
(*        before executing it, so an error may surface at the start of the *)
(*        block that contains it, a limit error may surface when the block *)
(*        does not fit, and a pause is acted upon at block boundaries      *)
(***************************************************************************)
EXTENDS Snap, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Batch == 48              \* Step transitions per state

VARIABLES c, ph, m, md, x
\* c case index, ph script position, m machine, md mode: "op" | "run" | "end"
\* x what the host keeps: the taken snapshots, the tracked pages, the data
\* source, and whether page initialisations still go to the mirror
vars == <<c, ph, m, md, x>>

Case == Cases[c]
Cur == Case.script[ph]
CS == [x |-> Case.x, v |-> Case.v, eb |-> Case.eb, ea |-> Case.ea, mop |-> Case.mop,
       cost |-> Case.cost, sys |-> Case.sys, dbg |-> Case.dbg, cz |-> Case.chaos]
Lenient == Case.cls = "t"
Blob(i) == IF i = 0 THEN <<>> ELSE Case.blobs[i]

(***************************************************************************)
(* Comparison of the machine with an observation.                          *)
(***************************************************************************)
\* halfword i of the mirror
RECURSIVE MirHw(_, _, _, _)
MirHw(img, j, i, cz) ==
  IF j = 0 THEN Unwritten(cz, i)
  ELSE LET r == img[j] IN
       IF r.mir /\ 2 * i >= r.a /\ 2 * i < r.a + r.n THEN RegHw(r, i) ELSE MirHw(img, j - 1, i, cz)
Mir(mem, i) == MirHw(mem.img, Len(mem.img), i, mem.cz)
NonMirBad(mem, P(_)) == \* where P holds among what ranges that are not in the mirror may change
  LET J == DOMAIN mem.img
      Nm == {j \in J : ~mem.img[j].mir}
      Mi == {j \in J : mem.img[j].mir /\ mem.img[j].len > 0}
      Meet(r, q) == r.d < q.a + q.n /\ q.a < r.d + r.len
  IN UNION {{k \in mem.img[j].nz : P(k)} : j \in Nm}
     \cup UNION {LET r == mem.img[j] IN
                IF \A i \in Nm : ~Meet(r, mem.img[i]) THEN {}
                ELSE {k \in (r.d \div 2)..((r.d + r.len - 1) \div 2) : P(k)} : j \in Mi}
PairKeys(d) == {d[i][1] : i \in 1..Len(d)}
MemBadIn(mem, d, In(_)) == \* a halfword on which memory and observation disagree, or -1
  LET ks == TLCEval(PairKeys(d))
      P(k) == k \notin ks /\ In(k) /\ Hw(mem, k) # Mir(mem, k)
      b1 == {i \in 1..Len(d) : Hw(mem, d[i][1]) # d[i][2]}
  \* (asking for the size sorts ks, so that looking it up is cheap)
  IN IF Cardinality(ks) < 0 THEN -1
     ELSE IF b1 # {} THEN d[CHOOSE i \in b1 : \A j \in b1 : i <= j][1]
     ELSE LET b2 == {k \in DOMAIN mem.wr : P(k)} \cup NonMirBad(mem, P)
          IN IF b2 = {} THEN -1 ELSE CHOOSE k \in b2 : \A j \in b2 : k <= j
MemBad(mem, d) == MemBadIn(mem, d, LAMBDA k : TRUE)
\* pages whose recorded flags differ (extra dirty marks tolerated if lax)
FlagSame(mm, p, f) == Flag(mm.mem, p) = f \/ (p \in mm.may /\ (Flag(mm.mem, p) | DIRTY) = f)
FlagBad(mm, fl, lax) ==
  LET mem == mm.mem
      ks == PairKeys(fl)
      spec(p) == Flag(mem, p)
      same(p, f) == FlagSame(mm, p, f) \/ (lax /\ (spec(p) | DIRTY) = f)
  IN {fl[i][1] : i \in {i \in 1..Len(fl) : ~same(fl[i][1], fl[i][2])}}
     \cup {p \in DOMAIN mem.fl \ ks : spec(p) # 0}
RegBad(mm, r) == {i \in 1..32 : mm.r[i] # r[i]}

Has(o, f) == f \in DOMAIN o
Diff(mm, o, what, lax) == \* set of disagreements <<component, where>>
  (IF "r" \in what /\ RegBad(mm, o.r) # {}
   THEN LET i == CHOOSE i \in RegBad(mm, o.r) : TRUE IN {<<"reg", <<i - 1, mm.r[i], o.r[i]>>>>} ELSE {})
  \cup (IF "pc" \in what /\ mm.pc # o.pc THEN {<<"pc", <<mm.pc, o.pc>>>>} ELSE {})
  \cup (IF "lr" \in what /\ mm.lr # o.lr THEN {<<"lr", <<mm.lr, o.lr>>>>} ELSE {})
  \cup (IF "cyc" \in what /\ mm.cyc # o.cyc THEN {<<"cyc", <<mm.cyc, o.cyc>>>>} ELSE {})
  \cup (IF "max" \in what /\ mm.max # o.max THEN {<<"max", <<mm.max, o.max>>>>} ELSE {})
  \cup (IF "fl" \in what /\ Has(o, "fl") /\ FlagBad(mm, o.fl, lax) # {}
        THEN LET p == CHOOSE p \in FlagBad(mm, o.fl, lax) : TRUE IN
             {<<"flag", <<p, Flag(mm.mem, p), {e[2] : e \in {o.fl[i] : i \in {i \in 1..Len(o.fl) : o.fl[i][1] = p}}}>>>>}
        ELSE {})
  \cup (IF "mem" \in what /\ Has(o, "d") /\ MemBad(mm.mem, o.d) >= 0
        THEN LET k == MemBad(mm.mem, o.d) IN {<<"mem", <<2 * k, Hw(mm.mem, k)>>>>} ELSE {})
All == {"r", "pc", "lr", "cyc", "max", "fl", "mem"}

(***************************************************************************)
(* Verdicts on single operations: <<machine', disagreements>>.             *)
(***************************************************************************)
\* permission arguments: page named; bounds arguments are unspecified
ErrDiff(e, a, o) ==
  IF e # o.e THEN {<<"err", <<e, o.e>>>>}
  ELSE IF e \in {"MemWriteOnExecutablePage", "MemWriteOnFreezedPage"} /\ a # o.ea
  THEN {<<"errarg", <<e, a, o.ea>>>>} ELSE {}
\* the pages of a range that lie in memory
In(mem, a, n) == IF n = 0 \/ ~InRange(mem, a, 1) THEN {}
                 ELSE Pages(Num(a), IF InRange(mem, a, n) THEN n ELSE mem.sz - Num(a))
\* an access that runs past the end of memory from a page it may not use
\* either may report either; this is the page it may name (-1: none)
AltPage(mem, a, n, wantExec) == IF InRange(mem, a, n) THEN -1 ELSE BadPage(mem, In(mem, a, n), wantExec)
AltDiff(e, arg, o, alt) ==
  IF alt >= 0 /\ e = "MemOutOfBound" /\ o.e = "MemWriteOnExecutablePage" /\ o.ea = alt THEN {}
  ELSE ErrDiff(e, arg, o)
MemOp(s, o) == <<[m EXCEPT !.mem = s[3]], ErrDiff(s[1], s[2], o)>>
\* a failed write over several pages may already have left dirty marks
MemWr(s, o, a, n) ==
  <<[m EXCEPT !.mem = s[3], !.may = IF s[1] = "" THEN @ ELSE @ \cup In(m.mem, a, n)],
    AltDiff(s[1], s[2], o, AltPage(m.mem, a, n, FALSE))>>
Bytes(o, a, n) == \* recorded bytes equal memory
  \A j \in 0..(n - 1) : ByteAt(m.mem, a + j) = (IF j % 2 = 0 THEN o.hw[(j \div 2) + 1] % 256
                                                  ELSE o.hw[(j \div 2) + 1] \div 256)
PageOk(p) == Ltu(p, W(m.mem.sz \div PageSize))
ResetMachine(mm, max) ==
  [NewMachine(CS, mm.mem.sz, max) EXCEPT !.sig = mm.sig, !.rs = mm.rs, !.tot = mm.tot]

\* the register a faulting AMO may already have written
AmoRd(mm) == LET f == Fetch(CS, mm.mem, mm.pc) IN
             IF f.e = "" /\ f.ins.op \in AmoOps THEN f.ins.rd ELSE 0

\* pages a faulting store may have marked dirty already
Target(mm) == \* <<first address, size>> written by the instruction at pc
  LET f == Fetch(CS, mm.mem, mm.pc)  i == f.ins IN
  IF f.e # "" THEN <<Zero, 0>>
  ELSE CASE i.op \in StoreOps -> <<Trunc(CS, Add(Reg(mm, i.rs1), i.imm)), Width(i.op)>>
         [] i.op \in AmoOps \cup {"sc"} -> <<Reg(mm, i.rs1), i.imm[1]>>
         [] i.op = "ecall" -> <<A0(mm), 64>>
         [] OTHER -> <<Zero, 0>>
MayDirty(mm) == LET t == Target(mm) IN In(mm.mem, t[1], t[2])

\* one instruction from each of several addresses, every time with the same
\* registers; the answers list the registers that differ from those
EachBad(e, mm, s) ==
  LET k == CASE mm.st = "run" -> "" [] OTHER -> mm.res.k
      changed == {i \in 1..32 : mm.r[i] # e.val[i]}
      said == {s.x[j][1] : j \in 1..Len(s.x)}
  IN IF k # s.k THEN {<<"outcome", <<k, s.k, mm.pc>>>>}
     ELSE IF ~(CASE k = "exit" -> mm.xc = s.a
                 [] k \in {"MemWriteOnExecutablePage", "InvalidInstruction", "InvalidEcall"} -> mm.res.a = s.a
                 [] OTHER -> TRUE) THEN {<<"errarg", <<k, mm.res.a, s.a>>>>}
     ELSE IF k \in {"", "exit"} /\ mm.pc # s.pc THEN {<<"pc", <<mm.pc, s.pc>>>>}
     ELSE IF ~(changed = {i + 1 : i \in said} /\ \A j \in 1..Len(s.x) : mm.r[s.x[j][1] + 1] = s.x[j][2])
     THEN {<<"reg", <<[i \in changed |-> mm.r[i]], s.x>>>>} ELSE {}
Each(e) ==
  FoldLeft(LAMBDA a, j :
             IF a[2] # {} THEN a
             ELSE LET m1 == [a[1] EXCEPT !.r = e.val, !.pc = e.pcs[j], !.st = "run"]
                      m2 == Step(CS, m1)
                      bad == EachBad(e, IF m2.st = "err" /\ e.o.s[j].k = m2.res.k
                                        THEN [m2 EXCEPT !.r[AmoRd(m1) + 1] =
                                                LET t == SelectSeq(e.o.s[j].x, LAMBDA y : y[1] = AmoRd(m1)) IN
                                                IF t = <<>> THEN @ ELSE t[1][2]]
                                        ELSE m2, e.o.s[j])
                  IN <<[m2 EXCEPT !.st = "idle",
                           !.pc = IF m2.st = "err" THEN e.o.s[j].pc ELSE @,
                           !.may = IF m2.st = "err" THEN @ \cup MayDirty(m1) ELSE @],
                       IF bad = {} THEN {} ELSE bad \cup {<<"each", <<j, e.pcs[j], Fetch(CS, m1.mem, e.pcs[j]).ins>>>>}>>,
           <<m, {}>>, [j \in 1..Len(e.pcs) |-> j])

DoOp(e) ==
  LET o == e.o IN
  CASE e.op = "init" -> MemOp(InitPagesAt(m.mem, e.a, e.n, e.fl, Blob(e.b), 0, e.len, e.off, TRUE), o)
    [] e.op = "stb" ->
         LET b == Blob(e.b) IN
         MemWr(StoreBytes(m.mem, e.a, e.len,
                 LAMBDA j : IF j % 2 = 0 THEN b[(j \div 2) + 1] % 256 ELSE b[(j \div 2) + 1] \div 256), o, e.a, e.len)
    [] e.op = "fill" -> MemWr(StoreBytes(m.mem, e.a, e.n, LAMBDA j : e.val), o, e.a, e.n)
    [] e.op = "st" -> MemWr(Store(m.mem, e.a, e.w, e.val), o, e.a, e.w)
    [] e.op = "ld" ->
         IF InRange(m.mem, e.a, e.w)
         THEN <<m, ErrDiff("", 0, o) \cup
                   (IF o.e = "" /\ o.val # LoadW(m.mem, Num(e.a), e.w)
                    THEN {<<"load", <<e.a, o.val>>>>} ELSE {})>>
         ELSE <<m, ErrDiff("MemOutOfBound", 0, o)>>
    [] e.op = "ldb" ->
         IF e.n = 0 THEN <<m, ErrDiff("", 0, o)>>
         ELSE IF InRange(m.mem, e.a, e.n)
         THEN <<m, ErrDiff("", 0, o) \cup
                   (IF o.e = "" /\ ~Bytes(o, Num(e.a), e.n) THEN {<<"load", <<e.a>>>>} ELSE {})>>
         ELSE <<m, ErrDiff("MemOutOfBound", 0, o)>>
    [] e.op = "ldd" -> \* the same for many bytes (address and number even): where they differ from the mirror
         IF InRange(m.mem, e.a, e.n)
         THEN LET k == IF o.e = "" THEN MemBadIn(m.mem, o.dd, LAMBDA i : 2 * i >= Num(e.a) /\ 2 * i < Num(e.a) + e.n) ELSE -1
              IN <<m, ErrDiff("", 0, o) \cup (IF k >= 0 THEN {<<"load", <<2 * k>>>>} ELSE {})>>
         ELSE <<m, ErrDiff("MemOutOfBound", 0, o)>>
    [] e.op = "xl" -> \* instruction fetch of 2 or 4 bytes
         IF ~InRange(m.mem, e.a, e.w)
         THEN <<m, AltDiff("MemOutOfBound", 0, o, AltPage(m.mem, e.a, e.w, TRUE))>>
         ELSE LET p == BadPage(m.mem, Pages(Num(e.a), e.w), TRUE) IN
              IF p >= 0 THEN <<m, ErrDiff("MemWriteOnExecutablePage", p, o)>>
              ELSE <<m, ErrDiff("", 0, o) \cup
                        (IF o.e = "" /\ o.val # LoadW(m.mem, Num(e.a), e.w)
                         THEN {<<"load", <<e.a, o.val>>>>} ELSE {})>>
    [] e.op = "sf" -> IF PageOk(e.p) THEN <<[m EXCEPT !.mem = SetFlags(@, {Num(e.p)}, e.fl)], ErrDiff("", 0, o)>>
                      ELSE <<m, ErrDiff("MemOutOfBound", 0, o)>>
    [] e.op = "cf" -> IF PageOk(e.p) THEN <<[m EXCEPT !.mem = ClearFlags(@, {Num(e.p)}, e.fl)], ErrDiff("", 0, o)>>
                      ELSE <<m, ErrDiff("MemOutOfBound", 0, o)>>
    [] e.op = "ff" -> IF PageOk(e.p)
                      THEN <<m, ErrDiff("", 0, o) \cup
                               (IF o.e = "" /\ ~FlagSame(m, Num(e.p), o.fl)
                                THEN {<<"flag", <<Num(e.p), Flag(m.mem, Num(e.p)), {o.fl}>>>>} ELSE {})>>
                      ELSE <<m, ErrDiff("MemOutOfBound", 0, o)>>
    [] e.op = "reg" -> <<[m EXCEPT !.r[e.i + 1] = e.val], {}>>
    [] e.op = "regs" -> <<[m EXCEPT !.r = e.val], {}>>
    [] e.op = "pc" -> <<[m EXCEPT !.pc = e.val], {}>>
    [] e.op = "cyc" -> <<[m EXCEPT !.cyc = e.val], {}>>
    [] e.op = "max" -> <<[m EXCEPT !.max = e.val], {}>>
    [] e.op = "lr" -> <<[m EXCEPT !.lr = e.val], {}>>
    [] e.op = "sig" -> <<[m EXCEPT !.sig = TRUE, !.jmp = 0], {}>>
    [] e.op = "addc" -> LET s == Charge(m, e.val) IN
                        <<[m EXCEPT !.cyc = s[2]], ErrDiff(s[1], 0, o)>>
    [] e.op = "addcn" -> LET s == AddC(m.cyc, e.val) IN
                        <<IF s[2] = 1 THEN m ELSE [m EXCEPT !.cyc = s[1]],
                          ErrDiff(IF s[2] = 1 THEN "CyclesOverflow" ELSE "", 0, o)>>
    [] e.op = "reset" -> <<ResetMachine(m, e.max), ErrDiff("", 0, o)>>
    [] e.op = "each" -> Each(e)
    [] e.op = "obs" -> <<m, Diff(m, o, All, FALSE)>>
    [] OTHER -> <<m, {<<"badop", <<e.op>>>>}>>

(***************************************************************************)
(* Runs.                                                                   *)
(***************************************************************************)
Rec == Cur.o           \* what the real run reported
RunStart(mm) ==
  [mm EXCEPT !.st = "run", !.n = 0, !.jmp = 0]

\* errors a trace engine may report while the machine is in state mm: the
\* first failure met when decoding straight ahead (a block is decoded before
\* it is charged), and the limit errors of charging the whole block
\* a fetch at an odd address at the end of memory may report the page instead
OddAlt(mm, pc) ==
  LET q == AltPage(mm.mem, pc, 4, TRUE) IN IF pc[1] % 2 = 1 /\ q >= 0 THEN {q} ELSE {}
RECURSIVE AheadErr(_, _, _, _)
AheadErr(mm, pc, cost, n) ==
  LET f == Fetch(CS, mm.mem, pc) IN
  IF f.e # "" THEN {<<f.e, f.a>>} \cup
                   (IF f.e = "MemOutOfBound" THEN {<<"MemWriteOnExecutablePage", q>> : q \in OddAlt(mm, pc)} ELSE {})
  ELSE LET c1 == AddC(cost, Cost(CS, f.ins.op, f.ins, f.ins.len))
           over == IF c1[2] = 1 THEN "CyclesOverflow" ELSE Charge(mm, c1[1])[1]
       IN (IF over = "" THEN {} ELSE {<<over, 0>>})
          \cup (IF f.ins.op \in BlockEndOps \/ n = 0 THEN {}
                ELSE AheadErr(mm, Add(pc, W(f.ins.len)), c1[1], n - 1))
ErrArgOk(k, a, b) == k \notin {"MemWriteOnExecutablePage", "InvalidInstruction", "InvalidEcall"} \/ a = b
RegsMem(mm, o) == RegBad(mm, o.r) = {} /\ (~Has(o, "d") \/ MemBad(mm.mem, o.d) < 0)
AheadMatch(mm) ==
  /\ Lenient /\ Rec.k \in {"MemOutOfBound", "MemWriteOnExecutablePage", "InvalidInstruction",
                           "CyclesExceeded", "CyclesOverflow"}
  /\ RegBad(mm, Rec.r) = {}
  /\ \E e \in AheadErr(mm, mm.pc, Zero, 300) : e[1] = Rec.k /\ ErrArgOk(Rec.k, e[2], Rec.a)
  /\ RegsMem(mm, Rec)

\* reset requested by a system call: fresh machine, then program a1 of the case
ApplyReset(mm) ==
  IF mm.pend = "" THEN mm
  ELSE LET i == 1 + (A1(mm)[1] % Len(Case.progs))
           p == Case.progs[i]
           f == ResetMachine(mm, <<A0(mm)[1] % 1024, 0, 0, 0>>)
           s == InitPages(f.mem, p.a, p.n, p.fl, Blob(p.b), p.len, Zero)
       IN [f EXCEPT !.st = "run", !.mem = s[3], !.pc = p.pc, !.n = mm.n]

PromptJumps == 3
Pausable == Rec.k = "Pause" /\ (m.sig \/ Case.async)
\* one step of a run, or the end of it (st # "run")
RunStep(mm) ==
  IF mm.st # "run" THEN mm
  \* cycles never decrease (unless the machine is reset): nothing from here on can agree
  ELSE IF Case.progs = <<>> /\ Ltu(Rec.cyc, mm.cyc) THEN [mm EXCEPT !.st = "over"]
  ELSE IF mm.sig /\ ~Lenient /\ Cur.op = "run" THEN [mm EXCEPT !.st = "pause", !.sig = FALSE]
  ELSE IF Rec.k = "Pause" /\ (mm.sig \/ Case.async) /\ mm.cyc = Rec.cyc /\ (Lenient \/ Case.async)
  THEN [mm EXCEPT !.st = "pause", !.sig = FALSE]
  ELSE IF Cur.op = "step" /\ mm.n >= Cur.n THEN [mm EXCEPT !.st = "idle"]
  ELSE IF Lenient /\ mm.sig /\ mm.jmp > PromptJumps THEN [mm EXCEPT !.st = "late"]
  ELSE IF AheadMatch(mm) THEN [mm EXCEPT !.st = "ahead"]
  ELSE ApplyReset(Step(CS, mm))

RunSome(mm) == FoldLeft(LAMBDA a, z : RunStep(a), mm, [z \in 1..Batch |-> z])

\* the verdict once the specified run has ended
\* (pairs are recorded in the order of their keys)
RECURSIVE Find(_, _, _, _)
Find(d, k, lo, hi) ==
  IF lo = hi THEN d[lo][2]
  ELSE LET mid == (lo + hi) \div 2 IN IF d[mid][1] >= k THEN Find(d, k, lo, mid) ELSE Find(d, k, mid + 1, hi)
ToFn(d) == TLCEval([k \in PairKeys(d) |-> Find(d, k, 1, Len(d))])
\* after an error the registers, memory and counters go on from what was recorded
Adopt(mm) ==
  LET o == Rec
      mem3 == IF Has(o, "d")
              THEN [mm.mem EXCEPT !.img = SelectSeq(@, LAMBDA r : r.mir), !.wr = ToFn(o.d)]
              ELSE mm.mem
      mem4 == IF Has(o, "fl") THEN [mem3 EXCEPT !.fl = ToFn(o.fl)] ELSE mem3
  IN [mm EXCEPT !.r = o.r, !.pc = o.pc, !.cyc = o.cyc, !.lr = o.lr, !.mem = mem4]
ExecKept(mm) == \* no byte of an executable page changed
  LET o == Rec IN
  IF ~Has(o, "d") THEN {}
  ELSE LET b == {i \in 1..Len(o.d) : /\ HasExec(Flag(mm.mem, o.d[i][1] \div 2048))
                                     /\ Hw(mm.mem, o.d[i][1]) # o.d[i][2]}
       IN IF b = {} THEN {} ELSE {<<"mem", <<2 * o.d[CHOOSE i \in b : TRUE][1]>>>>}

ErrorDiff(mm) ==
  LET o == Rec
      m1 == LET rd == AmoRd(mm) IN [mm EXCEPT !.r[rd + 1] = o.r[rd + 1]]
  IN Diff(m1, o, IF Lenient THEN {"r", "mem", "lr", "max"} ELSE {"r", "mem", "lr", "cyc", "max", "fl"}, TRUE)
AltErr(mm) ==
  /\ mm.res.k = "MemOutOfBound" /\ Rec.k = "MemWriteOnExecutablePage"
  /\ \/ LET t == Target(mm)  q == AltPage(mm.mem, t[1], t[2], FALSE) IN q >= 0 /\ q = Rec.a
     \/ Rec.a \in OddAlt(mm, mm.pc)
Verdict(mm) ==
  LET o == Rec IN
  CASE mm.st = "exit" ->
         IF o.k # "exit" THEN {<<"outcome", <<"exit", o.k, mm.n>>>>}
         ELSE (IF o.a # mm.xc THEN {<<"exitcode", <<mm.xc, o.a>>>>} ELSE {}) \cup Diff(mm, o, All, FALSE)
    [] mm.st = "pause" ->
         IF o.k # "Pause" THEN {<<"outcome", <<"Pause", o.k, mm.n>>>>} ELSE Diff(mm, o, All, FALSE)
    [] mm.st = "idle" ->
         IF o.k # "" THEN {<<"outcome", <<"", o.k, mm.n>>>>} ELSE Diff(mm, o, All, FALSE)
    [] mm.st = "ahead" -> ExecKept(mm)
    [] mm.st = "late" -> {<<"outcome", <<"Pause", o.k, mm.n>>>>}
    [] mm.st = "err" ->
         IF o.k # mm.res.k /\ ~AltErr(mm) THEN {<<"outcome", <<mm.res.k, o.k, mm.n>>>>}
         ELSE IF ~AltErr(mm) /\ ~ErrArgOk(o.k, mm.res.a, o.a) THEN {<<"errarg", <<mm.res.k, mm.res.a, o.a>>>>}
         ELSE ErrorDiff(mm) \cup ExecKept(mm)
    [] OTHER -> {<<"outcome", <<mm.st, o.k>>>>}
AfterRun(mm) ==
  LET a == IF mm.st = "err" THEN [Adopt(mm) EXCEPT !.may = @ \cup MayDirty(mm)]
           ELSE IF mm.st = "ahead" THEN Adopt(mm) ELSE mm
  IN [a EXCEPT !.st = "idle", !.tot = @ + mm.n, !.res = [k |-> "", a |-> 0], !.sig = IF mm.st = "pause" THEN FALSE ELSE @]

(***************************************************************************)
(* Loading a program (entry "load"; how: prog | meta | elf | elfn).  After *)
(* an error the machine goes on from what was recorded.                    *)
(***************************************************************************)
Load(e) ==
  LET o == e.o
      l == LoadElf(CS, m.mem, Blob(e.b), e.len)
      hs == Len(Case.sys) + (IF Case.dbg THEN 1 ELSE 0)
      m1 == [m EXCEPT !.mem = l.mem, !.pc = IF e.how = "elfn" THEN @ ELSE l.entry]
      s == InitStack(CS, l.mem, e.args)
      Inits(n) == IF o.inits = n THEN {} ELSE {<<"inits", <<n, o.inits>>>>}
      Val(n) == IF o.val = W(n) THEN {} ELSE {<<"bytes", <<n, o.val>>>>}
  IN IF l.e # "" THEN <<Adopt(m1), ErrDiff(l.e, l.a, o) \cup Inits(0)>>
     ELSE IF e.how \in {"elf", "elfn"}
     THEN <<m1, IF o.e # "" THEN ErrDiff("", 0, o) ELSE Diff(m1, o, All, FALSE) \cup Inits(0) \cup Val(l.bytes)>>
     ELSE IF s.e # ""
     THEN <<Adopt(m1), (IF o.e \in StackErrors THEN {} ELSE ErrDiff(s.e, 0, o)) \cup Inits(hs)>>
     ELSE LET m2 == [m1 EXCEPT !.mem = s.mem, !.r[SPIDX] = W(s.sp)] IN
          <<m2, IF o.e # "" THEN ErrDiff("", 0, o)
                ELSE Diff(m2, o, All, FALSE) \cup Inits(hs) \cup Val(l.bytes + s.bytes)>>

(***************************************************************************)
(* Snapshots, and what the host keeps about them.                          *)
(*   src      put, or take away, a byte string of the data source          *)
(*   renew    go on with a machine just built (maybe of another engine)    *)
(*   sstore, untrack, mark, snap, snap2, resume: see Snap                  *)
(* The verdict of an operation is <<machine', disagreements, x'>>.         *)
(***************************************************************************)
\* with the dirty marks failed stores may have left, where the snapshot dp has them
Marked(mm, dp) ==
  LET ps == {dp[i][1] : i \in 1..Len(dp)} \cap mm.may IN IF ps = {} THEN mm.mem ELSE SetFlags(mm.mem, ps, DIRTY)
SnapOps == {"src", "renew", "sstore", "untrack", "mark", "snap", "snap2", "resume"}
SnapOp(e) ==
  LET o == e.o
      Seen(mm) == Diff(mm, o, All, FALSE)
      \* an operation that may fail half-way: afterwards as recorded
      Done2(s, mm, trk, more) ==
        IF s.e # "" THEN <<Adopt(m), ErrDiff(s.e, s.a, o), [x EXCEPT !.trk = trk]>>
        ELSE <<mm, IF o.e # "" THEN ErrDiff("", 0, o) ELSE Seen(mm) \cup more, [x EXCEPT !.trk = trk]>>
  IN
  CASE e.op = "src" ->
         <<m, {}, [x EXCEPT !.src = IF e.b = 0 THEN Drop(@, {e.id})
                                    ELSE (e.id :> [blob |-> Blob(e.b), len |-> e.len]) @@ @]>>
    [] e.op = "renew" ->
         <<[NewMachine(CS, Case.sz, Case.max) EXCEPT !.sig = m.sig, !.rs = m.rs, !.tot = m.tot], {},
           [x EXCEPT !.fresh = TRUE, !.trk = IF e.ctx THEN @ ELSE NoTrk]>>
    [] e.op = "sstore" ->
         LET s == SourceStore(CS, m.mem, x.trk, x.src, e.a, e.id, e.off, e.n, e.sa) IN
         Done2(s, [m EXCEPT !.mem = s.mem], s.trk,
               IF o.val = s.val /\ o.full = s.full THEN {} ELSE {<<"bytes", <<s.val, s.full, o.val, o.full>>>>})
    [] e.op = "untrack" ->
         LET n == IF IsSmall(e.n) THEN Num(e.n) ELSE m.mem.sz + 1
             s == Untrack(m.mem, x.trk, e.a, n)
         IN Done2([e |-> s.e, a |-> 0], [m EXCEPT !.mem = s.mem], s.trk, {})
    [] e.op = "mark" ->
         LET s == MarkProgram(CS, m.mem, x.trk, Blob(e.b), e.len, e.id, e.off) IN
         Done2([e |-> s.e, a |-> 0], [m EXCEPT !.mem = s.mem], s.trk, {})
    [] e.op = "snap" ->
         LET mem == Marked(m, o.dp)
             dp == {<<p, Flag(mem, p)>> : p \in DirtyPages(mem)} IN
         <<[m EXCEPT !.mem = mem], ErrDiff("", 0, o) \cup Seen(m)
              \cup (IF {o.dp[i] : i \in 1..Len(o.dp)} = dp /\ Len(o.dp) = Cardinality(dp) THEN {} ELSE {<<"pages", dp>>}),
           [x EXCEPT !.sn = Append(@, [two |-> FALSE, r |-> m.r, pc |-> m.pc, lr |-> m.lr, mem |-> mem])]>>
    [] e.op = "snap2" ->
         LET mem == Marked(m, o.dp)
             dp == {<<p, Flag(mem, p)>> : p \in DirtyPages(mem)}
             sp == {<<p, x.trk[p].id, x.trk[p].off, x.trk[p].fl>> : p \in SourcePages(mem, x.trk)}
         IN <<[m EXCEPT !.mem = mem], ErrDiff("", 0, o) \cup Seen(m)
              \cup (IF {o.dp[i] : i \in 1..Len(o.dp)} = dp /\ Len(o.dp) = Cardinality(dp)
                       /\ {o.sp[i] : i \in 1..Len(o.sp)} = sp /\ Len(o.sp) = Cardinality(sp)
                    THEN {} ELSE {<<"pages", <<dp, sp>>>>}),
           [x EXCEPT !.sn = Append(@, [two |-> TRUE, r |-> m.r, pc |-> m.pc, lr |-> m.lr, mem |-> mem,
                                       cyc |-> m.cyc, max |-> m.max, trk |-> x.trk, src |-> x.src])]>>
    [] e.op = "resume" ->
         LET s == x.sn[e.k]
             t == IF s.two THEN Resume2(m, s, x.src, x.fresh) ELSE Resume1(m, s, x.fresh) @@ [trk |-> x.trk]
         IN IF e.bad # ""  \* a damaged snapshot must be refused
            THEN <<Adopt(m), IF o.e # "" THEN {} ELSE {<<"err", <<"refused", o.e>>>>}, [x EXCEPT !.trk = NoTrk]>>
            ELSE IF t.e # ""
            THEN <<Adopt(m), IF t.e = "SnapshotDataLoadError" /\ o.e # "" THEN {} ELSE ErrDiff(t.e, t.a, o),
                   [x EXCEPT !.trk = NoTrk]>>
            ELSE <<t.m, IF o.e # "" THEN ErrDiff("", 0, o) ELSE Seen(t.m), [x EXCEPT !.trk = t.trk]>>

(***************************************************************************)
(* The replay as a transition system.                                      *)
(***************************************************************************)
Report(bad, mm) ==
  PrintT("@BAD " \o ToJson([id |-> Case.id, eng |-> Case.eng, at |-> ph, op |-> Cur.op, bad |-> bad,
                            n |-> mm.n, pc |-> mm.pc, rec |-> IF Has(Cur.o, "k") THEN Cur.o.k ELSE ""]))
Finish(ok, mm) == PrintT("@END " \o ToJson([id |-> Case.id, ok |-> ok, g |-> Case.g, n |-> mm.tot]))

Init == /\ c \in 1..Len(Cases)
        /\ ph = 1
        /\ m = NewMachine(CS, Case.sz, Case.max)
        /\ md = "op"
        /\ x = [sn |-> <<>>, trk |-> NoTrk, src |-> <<>>, fresh |-> FALSE]
Go2(bad, m2, mm, x2) == \* proceed after entry ph
  IF bad # {} THEN Report(bad, mm) /\ Finish(FALSE, m2) /\ md' = "end" /\ m' = m2 /\ UNCHANGED <<c, ph, x>>
  ELSE IF ph = Len(Case.script) THEN Finish(TRUE, m2) /\ md' = "end" /\ m' = m2 /\ UNCHANGED <<c, ph, x>>
  ELSE ph' = ph + 1 /\ md' = "op" /\ m' = m2 /\ UNCHANGED c
       /\ x' = [x2 EXCEPT !.fresh = @ /\ Cur.op \in {"renew", "src"}]
Go(bad, m2, mm) == Go2(bad, m2, mm, x)
OpStep ==
  /\ md = "op"
  /\ IF Has(Cur.o, "k") /\ Cur.o.k = "skip" THEN Go({}, m, m)
     ELSE IF Cur.op \in {"run", "step"}
     THEN IF Cur.op = "run" /\ CS.mop /\ CS.v = 0
          THEN Go(IF Rec.k # "InvalidVersion" THEN {<<"outcome", <<"InvalidVersion", Rec.k>>>>} ELSE {}, m, m)
          ELSE md' = "run" /\ m' = RunStart(m) /\ UNCHANGED <<c, ph, x>>
     ELSE IF Cur.op \in SnapOps THEN LET s == SnapOp(Cur) IN Go2(s[2], s[1], m, s[3])
     ELSE LET s == IF Cur.op = "load" THEN Load(Cur) ELSE DoOp(Cur) IN Go(s[2], s[1], m)
RunBatch ==
  /\ md = "run"
  /\ LET mm == RunSome(m) IN
     IF mm.st = "run" THEN m' = mm /\ UNCHANGED <<c, ph, md, x>>
     ELSE Go(Verdict(mm), AfterRun(mm), mm)
Next == OpStep \/ RunBatch
Spec == Init /\ [][Next]_vars

View == <<c, ph, md, m.n>>
=============================================================================
