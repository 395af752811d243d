------------------------------- MODULE RunHist --------------------------------
(***************************************************************************)
(* Stopping and going on.                                                  *)
(*                                                                         *)
(* A program is executed instruction by instruction; each costs cycles.    *)
(* The host sets limits, raises the pause signal and runs; system calls of *)
(* the program charge cycles and raise the signal as well.  An engine may  *)
(* look at the signal and charge per instruction or per basic block: what  *)
(* is demanded holds for all of them.  All programs of up to MaxChunks     *)
(* chunks, all histories of Rounds rounds of (limit, signal, run); the     *)
(* limits are those just below, at and just above every chunk boundary.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

CONSTANTS Chunks, MaxChunks, Rounds
Sample == atoi(IOEnv.SAMPLE)
Free == 1000000

\* executed instructions: cost, extra cycles charged by the call, whether the
\* call raises the signal, whether the instruction ends its basic block
It(c) == [c |-> c, x |-> 0, s |-> FALSE, b |-> FALSE]
Plain(n) == [i \in 1..n |-> It(1)]
Est(cost, c) == IF cost = "est" THEN c ELSE 1
End(it) == [it EXCEPT !.b = TRUE]
Call(cost) == End(It(Est(cost, 500)))
Items(cost, ch) ==
  CASE ch = "p1" -> Plain(1) [] ch = "p14" -> Plain(14) [] ch = "p15" -> Plain(15) [] ch = "p16" -> Plain(16) [] ch = "p17" -> Plain(17)
    [] ch = "p33" -> Plain(33)
    [] ch = "mul" -> <<It(Est(cost, 5))>>
    [] ch = "jmp" -> <<End(It(Est(cost, 3)))>>
    [] ch = "sig" -> Plain(2) \o <<[Call(cost) EXCEPT !.s = TRUE]>>
    [] ch = "chg" -> Plain(3) \o <<[Call(cost) EXCEPT !.x = 7]>>
    [] ch = "lop" -> Plain(1) \o <<It(1), It(1), End(It(Est(cost, 3))), It(1), It(1), End(It(Est(cost, 3)))>>
Exit(cost) == Plain(1) \o <<Call(cost)>>
Program(cost, chs) == FlattenSeq([i \in 1..Len(chs) |-> Items(cost, chs[i])]) \o Exit(cost)
\* lengths at which chunks end
Bounds(cost, chs) == {Len(FlattenSeq([i \in 1..k |-> Items(cost, chs[i])])) : k \in 0..Len(chs)} \cup {Len(Program(cost, chs))}
SumTo(p, n) == FoldLeft(LAMBDA a, it : a + it.c + it.x, 0, SubSeq(p, 1, n))

VARIABLES cost, chs, p, bounds, pos, cyc, max, sig, out, round, hist
vars == <<cost, chs, p, bounds, pos, cyc, max, sig, out, round, hist>>

Limits == {Free} \cup {SumTo(p, n) + d : n \in bounds, d \in {-1, 0, 1}}

Init == /\ cost \in {"one", "est"}
        /\ chs = <<>> /\ p = <<>> /\ bounds = {} /\ pos = 0 /\ cyc = 0 /\ max = Free /\ sig = FALSE
        /\ out = "write" /\ round = 0 /\ hist = <<>>
Write == /\ out = "write"
         /\ \/ /\ Len(chs) < MaxChunks
               /\ \E ch \in Chunks : chs' = Append(chs, ch)
               /\ UNCHANGED <<p, bounds, out>>
            \/ /\ p' = Program(cost, chs) /\ bounds' = Bounds(cost, chs) /\ out' = "host" /\ UNCHANGED chs
         /\ UNCHANGED <<cost, pos, cyc, max, sig, round, hist>>
\* the host: limit, signal, run
Host == /\ out \in {"host", "pause", "limit"} /\ round < Rounds
        /\ \E m \in Limits, s \in {TRUE, FALSE} :
             /\ m >= 0
             /\ max' = m /\ sig' = (sig \/ s)
             /\ hist' = Append(hist, <<m, IF s THEN 1 ELSE 0>>)
        /\ round' = round + 1 /\ out' = "run"
        /\ UNCHANGED <<cost, chs, p, bounds, pos, cyc>>
\* after the last round: no limit, the signal lowered, run to the end
Finish ==
        /\ out \in {"host", "pause", "limit"} /\ round = Rounds
        /\ RandomElement(1..Sample) = 1 => PrintT("@CASE " \o ToJson(<<cost, chs, hist>>))
        /\ max' = Free /\ sig' = FALSE /\ out' = "run" /\ UNCHANGED <<cost, chs, p, bounds, pos, cyc, round, hist>>
Done == /\ out = "exit" /\ round < Rounds
        /\ RandomElement(1..Sample) = 1 => PrintT("@CASE " \o ToJson(<<cost, chs, hist>>))
        /\ out' = "end" /\ UNCHANGED <<cost, chs, p, bounds, pos, cyc, max, sig, round, hist>>
\* the instructions of the block from pos on
BlockEnd == CHOOSE k \in pos + 1..Len(p) : p[k].b /\ \A j \in pos + 1..k - 1 : ~p[j].b
AtBlock == pos = 0 \/ p[pos].b
Pause == sig /\ out' = "pause" /\ sig' = FALSE /\ UNCHANGED <<pos, cyc>>
Stop == out' = "limit" /\ UNCHANGED <<pos, cyc, sig>>
\* one instruction; the call's own charge may fail as well
One == LET it == p[pos + 1]
           c == cyc + it.c + it.x
       IN IF c > max THEN Stop
          ELSE /\ cyc' = c /\ pos' = pos + 1 /\ sig' = (sig \/ it.s)
               /\ out' = IF pos + 1 = Len(p) THEN "exit" ELSE "run"
\* a whole block, charged in advance
Block == LET k == BlockEnd
             c == SumTo(p, k) - SumTo(p, pos)
         IN IF cyc + c > max THEN Stop
            ELSE /\ cyc' = cyc + c /\ pos' = k /\ sig' = (sig \/ p[k].s)
                 /\ out' = IF k = Len(p) THEN "exit" ELSE "run"
Go == /\ out = "run"
      /\ \/ Pause
         \/ (sig => ~AtBlock) /\ One      \* per instruction (seen at the next block at the latest)
         \/ ~sig /\ Block
      /\ UNCHANGED <<cost, chs, p, bounds, max, round, hist>>
Next == Write \/ Host \/ Finish \/ Done \/ Go
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The demands.                                                            *)
(***************************************************************************)
Total == SumTo(p, Len(p))
\* whatever was executed was charged for, once
Exact == out # "write" => cyc = SumTo(p, pos)
\* the limit holds, unless the host itself set it below what was already spent
Held == [][cyc' # cyc => cyc' <= max]_vars
\* the end is reached only with everything executed, by whatever stops before
Ends == out = "exit" => pos = Len(p) /\ cyc = Total
\* a run stops at the limit only if what comes next does not fit
Fits == out = "limit" => cyc + SumTo(p, BlockEnd) - SumTo(p, pos) > max
\* a pause uses the signal up
Used == out = "pause" => ~sig
View == <<cost, chs, pos, cyc, max, sig, out, round, hist>>
=============================================================================
