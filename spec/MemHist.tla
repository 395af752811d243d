------------------------------- MODULE MemHist --------------------------------
(***************************************************************************)
(* All histories of accesses to two adjacent pages A and B (which lie in   *)
(* different frames of the assembly engine) and the last page C.           *)
(*                                                                         *)
(* Every operation is one of the memory specification (Mem).  The model    *)
(* also follows which page was written and which frame was read last by    *)
(* the guest, because an engine may remember that: states differing in it  *)
(* are different, so that the transitions explored here, replayed on the   *)
(* real code, cover every operation after every such access.               *)
(*                                                                         *)
(* Ok states, independently of the operators of Mem, what C08 - C12 demand *)
(* of a transition.  sh is a byte array written by the definition of each  *)
(* operation only.                                                         *)
(***************************************************************************)
EXTENDS Mem, Sequences, Json, IOUtils, TLC

Sz == 524288
A == 63
B == 64
C == 127
Pgs == {A, B, C}
AA == A * PageSize
BA == B * PageSize
CA == C * PageSize
\* the bytes looked at: in A; across A and B; in B; the last ones of C
Win == (BA - 16)..(BA - 9) \cup (BA - 4)..(BA + 3) \cup (BA + 8)..(BA + 15) \cup (Sz - 8)..(Sz - 1)

CONSTANT Names          \* the operations used
CONSTANT Stale          \* follow that beyond resets and initialisations, which should end it
Sample == atoi(IOEnv.SAMPLE)   \* one in so many transitions is replayed

VARIABLES mem, sh, code, wp, rf, since, hist
vars == <<mem, sh, code, wp, rf, since, hist>>

\* what is stored: a store, a fill, an initialisation with data
Word8 == <<8721, 17459, 26197, 34935>>     \* 11 22 33 44 55 66 77 88
WordByte(j) == LET h == Word8[(j \div 2) + 1] IN IF j % 2 = 0 THEN h % 256 ELSE h \div 256
FillByte == 90
Data == [k \in 1..4096 |-> 513]            \* two pages of bytes 1, 2, 1, 2, ...
DataByte(j) == 1 + (j % 2)

\* name -> [kind, first byte, size, flags]
Op(k, a, n, f) == [k |-> k, a |-> a, n |-> n, f |-> f]
OpOf ==
  [ iA0 |-> Op("init", AA, 4096, 0),     iA3 |-> Op("init", AA, 4096, 3),   iAB |-> Op("init", AA, 8192, 0),
    iB2 |-> Op("init", BA, 4096, 2),     iB1 |-> Op("init", BA, 4096, 1),   iC0 |-> Op("init", CA, 8192, 0),
    stA |-> Op("st", BA - 16, 8, 0),     stS |-> Op("st", BA - 4, 8, 0),    stC |-> Op("st", Sz - 8, 8, 0),
    stO |-> Op("st", Sz - 4, 8, 0),      fiS |-> Op("fill", BA - 2, 4, 0),  fiO |-> Op("fill", Sz - 4, 8, 0),
    gsA |-> Op("gst", BA - 16, 8, 0),    gsB |-> Op("gst", BA + 8, 8, 0),   gsS |-> Op("gst", BA - 4, 8, 0),
    gsO |-> Op("gst", Sz - 4, 8, 0),     gsC |-> Op("gst", Sz - 8, 8, 0),
    glA |-> Op("gld", BA - 16, 8, 0),    glB |-> Op("gld", BA + 8, 8, 0),   glS |-> Op("gld", BA - 4, 8, 0),
    glO |-> Op("gld", Sz - 4, 8, 0),     xlS |-> Op("xl", BA - 2, 4, 0),
    xA |-> Op("sf", AA, 4096, 2),        xB |-> Op("sf", BA, 4096, 2),      fA |-> Op("sf", AA, 4096, 1),
    cxA |-> Op("cf", AA, 4096, 2),       cxB |-> Op("cf", BA, 4096, 3),     cdA |-> Op("cf", AA, 4096, 4),
    cdB |-> Op("cf", BA, 4096, 4),       cdC |-> Op("cf", CA, 4096, 4),
    res |-> Op("reset", 0, 0, 0),        cod |-> Op("code", 0, 0, 0),       cos |-> Op("codes", 0, 0, 0) ]

Enabled2(o) == IF o.k \in {"gst", "gld"} THEN code ELSE IF o.k \in {"code", "codes"} THEN ~code ELSE TRUE

\* the memory in one form: only the bytes looked at
Canon(m2) == [sz |-> Sz, img |-> <<>>, cz |-> FALSE, wr |-> TLCEval([k \in {a \div 2 : a \in Win} |-> Hw(m2, k)]),
              fl |-> TLCEval([p \in Pgs |-> Flag(m2, p)])]

\* <<error, memory'>>
Do(o) ==
  LET w == W(o.a) IN
  CASE o.k = "init" ->
         LET s == InitPages(mem, w, W(o.n), o.f, Data, 8192, Zero) IN <<s[1], s[3]>>
    [] o.k \in {"st", "gst"} -> LET s == Store(mem, w, 8, Word8) IN <<s[1], s[3]>>
    [] o.k = "fill" -> LET s == StoreBytes(mem, w, o.n, LAMBDA j : FillByte) IN <<s[1], s[3]>>
    [] o.k = "gld" -> <<IF InRange(mem, w, 8) THEN "" ELSE "MemOutOfBound", mem>>
    [] o.k = "xl" -> <<IF BadPage(mem, Pages(o.a, o.n), TRUE) < 0 THEN "" ELSE "MemWriteOnExecutablePage", mem>>
    [] o.k = "sf" -> <<"", SetFlags(mem, Pages(o.a, o.n), o.f)>>
    [] o.k = "cf" -> <<"", ClearFlags(mem, Pages(o.a, o.n), o.f)>>
    [] o.k = "reset" -> <<"", NewMem(Sz)>>
    [] OTHER -> <<"", mem>>

Touched(o, a) == a >= o.a /\ a < o.a + o.n
NewByte(o, a) ==
  CASE o.k = "reset" -> 0
    [] o.k = "init" /\ Touched(o, a) -> DataByte(a - o.a)
    [] o.k \in {"st", "gst"} /\ Touched(o, a) -> WordByte(a - o.a)
    [] o.k = "fill" /\ Touched(o, a) -> FillByte
    [] OTHER -> sh[a]

(***************************************************************************)
(* What a transition by operation o with error e must look like.           *)
(***************************************************************************)
OnPage(o, p) == o.n > 0 /\ o.a < (p + 1) * PageSize /\ o.a + o.n > p * PageSize
Writes(o) == o.k \in {"st", "gst", "fill", "init"}
PageBytes(p) == {a \in Win : a \div PageSize = p}
SameBytes(m2, p) == \A a \in PageBytes(p) : ByteAt(m2, a) = sh[a]
Dirty(f) == (f \div 4) % 2 = 1
Ok(o, e, m2) ==
  \* C11: memory is the byte array of what was written (failed writes write nothing)
  /\ \A a \in Win : ByteAt(m2, a) = IF e = "" THEN NewByte(o, a) ELSE sh[a]
  \* nothing is changed by what fails
  /\ e # "" => m2 = mem
  \* C10: whatever is not inside fails
  /\ o.k \in {"st", "gst", "fill", "init", "gld"} /\ o.a + o.n > Sz => e = "MemOutOfBound"
  /\ \A p \in Pgs :
       \* C08: executable pages change only by initialisation and reset
       /\ HasExec(Flag(mem, p)) /\ ~SameBytes(m2, p) => o.k \in {"init", "reset"}
       /\ HasExec(Flag(mem, p)) /\ OnPage(o, p) /\ o.k \in {"st", "gst", "fill"} => e # ""
       /\ ~HasExec(Flag(mem, p)) /\ OnPage(o, p) /\ o.k = "xl" => e = "MemWriteOnExecutablePage"
       \* C09: frozen pages are not initialised; others get exactly the flags
       /\ HasFrozen(Flag(mem, p)) /\ OnPage(o, p) /\ o.k = "init" => e # ""
       /\ o.k = "init" /\ OnPage(o, p) /\ e = "" => Flag(m2, p) & 3 = (Flag(mem, p) | o.f) & 3
       \* C12: changed pages are dirty, and stay so until a flag operation (or reset) says otherwise
       /\ ~SameBytes(m2, p) /\ o.k # "reset" => Dirty(Flag(m2, p))
       /\ Dirty(Flag(mem, p)) /\ ~Dirty(Flag(m2, p)) => o.k = "reset" \/ (o.k = "cf" /\ OnPage(o, p))
       /\ ~Dirty(Flag(mem, p)) /\ Dirty(Flag(m2, p)) => Writes(o) /\ OnPage(o, p) /\ e = ""
       \* only flag operations, initialisation and reset change the permissions
       /\ Flag(m2, p) & 3 # Flag(mem, p) & 3 => o.k = "reset" \/ (o.k \in {"init", "sf", "cf"} /\ OnPage(o, p))

Init == /\ mem = Canon(NewMem(Sz))
        /\ sh = [a \in Win |-> 0]
        /\ code = TRUE
        /\ wp = -1 /\ rf = -1 /\ since = {}
        /\ hist = <<>>
Next ==
  \E name \in Names :
    LET o == OpOf[name] IN
    /\ Enabled2(o)
    /\ LET r == Do(o) IN
       /\ Assert(Ok(o, r[1], r[2]), <<"transition", hist, name, r[1]>>)
       /\ mem' = Canon(r[2])
       /\ sh' = TLCEval([a \in Win |-> IF r[1] = "" THEN NewByte(o, a) ELSE sh[a]])
       /\ code' = CASE o.k = "reset" -> FALSE [] o.k \in {"code", "codes"} -> TRUE [] OTHER -> code
       /\ wp' = CASE o.k = "gst" -> (IF r[1] = "" THEN (o.a + o.n - 1) \div PageSize ELSE wp)
                  [] o.k \in {"init", "code", "reset"} /\ ~Stale -> -1 [] OTHER -> wp
       /\ rf' = CASE o.k = "gld" -> (IF r[1] = "" THEN (o.a + o.n - 1) \div 262144 ELSE rf)
                  [] o.k \in {"init", "code", "reset"} /\ ~Stale -> -1 [] OTHER -> rf
       /\ since' = IF ~Stale \/ o.k \in {"gst", "gld"} THEN {} ELSE IF o.k \in {"init", "code", "reset", "sf", "cf"} THEN since \cup {o.k} ELSE since
       /\ hist' = Append(hist, name)
       /\ RandomElement(1..Sample) = 1 => PrintT("@CASE " \o ToJson(hist'))
All == DOMAIN OpOf
Spec == Init /\ [][Next]_vars
View == <<sh, [p \in Pgs |-> Flag(mem, p)], code, wp, rf, since>>
=============================================================================
