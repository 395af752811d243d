------------------------------ MODULE StackArgs ------------------------------
(***************************************************************************)
(* The stack a program starts with, for all lists of up to MaxArgs         *)
(* arguments of lengths Lens, in a memory of 1 KB (a stack of 256 bytes).  *)
(*                                                                         *)
(* The invariants say what C17 demands in the words of the program that    *)
(* is started: it reads argc, follows the pointers and finds the strings.  *)
(***************************************************************************)
EXTENDS Elf, Json, IOUtils
CONSTANTS Lens, MaxArgs
Sample == atoi(IOEnv.SAMPLE)
VARIABLES cs, args, done, R
vars == <<cs, args, done, R>>

Size == 1024
Room == 256
Old == 204
Before == TLCEval([NewMem(Size) EXCEPT !.wr = [k \in 256..511 |-> Old * 257]])
Text(i, n) == [k \in 1..n |-> 65 + ((i * 7 + k) % 26)]
W8 == cs.x \div 8
New == cs.v >= 1

Init == /\ \E x \in {32, 64}, v \in {0, 1, 2} :
             cs = [x |-> x, v |-> v, eb |-> TRUE, ea |-> TRUE, mop |-> FALSE, cost |-> "one", sys |-> <<>>, dbg |-> FALSE, cz |-> FALSE]
        /\ args = <<>> /\ done = FALSE /\ R = [e |-> "none"]
Another == /\ ~done /\ Len(args) < MaxArgs
       /\ \E n \in Lens : args' = Append(args, Text(Len(args), n))
       /\ UNCHANGED <<cs, done, R>>
Start == /\ ~done /\ done' = TRUE /\ R' = TLCEval(InitStack(cs, Before, args))
         /\ RandomElement(1..Sample) = 1 => PrintT("@CASE " \o ToJson(<<cs.x, cs.v, [i \in 1..Len(args) |-> Len(args[i])]>>))
         /\ UNCHANGED <<cs, args>>
Spec == Init /\ [][Another \/ Start]_vars

\* how many bytes the strings, and the words below them, take
Strings == FoldLeft(LAMBDA s, a : s + Len(a) + 1, 0, args)
Words == W8 * (1 + Len(args) + (IF New THEN 1 ELSE 0))
Needs == Strings + Words
Taken == IF New THEN ((Needs + 15) \div 16) * 16 ELSE Needs
Old0 == New /\ args = <<>>

\* it starts iff the list fits in the top quarter of memory
Fits == done => ((R.e = "") <=> (Old0 \/ Taken <= Room))
Refused == done => (R.e # "" => R.mem = Before /\ R.e \in {"MemOutOfStack", "MemOutOfBound"})
\* what is read at an address of the started machine: a word, a string
Word(a) == LoadW(R.mem, a, W8)
Str(a) == LET e == CHOOSE k \in a..Size : (k = Size \/ ByteAt(R.mem, k) = 0) /\ \A j \in a..k - 1 : ByteAt(R.mem, j) # 0
          IN [k \in 1..e - a |-> ByteAt(R.mem, a + k - 1)]
Item(i) == LET v == Word(R.sp + W8 * i) IN Num(IF New THEN v ELSE <<v[1], v[2], 0, 0>>)
Program ==
  (done /\ R.e = "" /\ ~Old0) =>
     /\ Item(0) = Len(args)
     /\ \A i \in 1..Len(args) : LET p == Item(i) IN
          /\ p >= R.sp + Words /\ p < Size
          /\ Str(p) = args[i]
          /\ \A j \in 1..i - 1 : LET q == Item(j) IN p >= q + Len(args[j]) + 1 \/ q >= p + Len(args[i]) + 1
     /\ New => Item(Len(args) + 1) = 0
Aligned == (done /\ R.e = "" /\ New) => R.sp % 16 = 0
Tight == (done /\ R.e = "") => R.sp >= Size - Room /\ R.bytes = Size - R.sp /\ (~Old0 => R.bytes = Taken)
\* nothing but the list is written; version 0 leaves the upper half of each item
Others ==
  (done /\ R.e = "") =>
     \A a \in 0..Size - 1 :
       \/ a \div 2 \notin DOMAIN R.mem.wr
       \/ ByteAt(R.mem, a) = ByteAt(Before, a)
       \/ ~Old0 /\ a >= Size - Strings
       \/ ~Old0 /\ a >= R.sp /\ a < R.sp + Words /\ (New \/ (a - R.sp) % W8 < 4)
=============================================================================
