------------------------------ MODULE SnapHist -------------------------------
(***************************************************************************)
(* All histories, up to a number of operations, of a machine whose pages   *)
(* come from a data source or are initialised, are written, marked,        *)
(* snapshotted (incrementally or in full: FullHist) and resumed:           *)
(* on a machine just built with a new context, on one with the context     *)
(* kept, and on the machine that goes on.                                  *)
(*                                                                         *)
(* Two adjacent pages A and B and the last page C of a small memory; two   *)
(* sources, of two whole pages (and some more) each.  Every operation is   *)
(* one of the specification (Snap).  What C18 and C19 demand is stated     *)
(* below independently: on a byte array and page marks of its own (sh, fl) *)
(* and by the meaning of being tracked.                                    *)
(***************************************************************************)
EXTENDS Snap, Json, IOUtils, TLC

Sz == 262144
PA == 16
PB == 17
PC == 63
Pgs == {PA, PB, PC}
FirstOf(p) == p * PageSize
CS0 == [x |-> 64, v |-> 2]
CONSTANTS Names, Depth
Sample == atoi(IOEnv.SAMPLE)

\* the halfwords looked at: around the store, the middle and the end of each page
Marks == {0, 1, 4, 1023, 1024, 2047}
Win == UNION {{2048 * p + k : k \in Marks} : p \in Pgs}

\* source id: page 0, page 1, and 100 bytes more, each of one repeated halfword
Half(id, off) == 256 * (16 * id + off \div PageSize) + 1
SrcBlob(id) == SubSeq([i \in 1..4146 |-> Half(id, 2 * (i - 1))], 1, 4146)
Blob1 == SrcBlob(1)
Blob2 == SrcBlob(2)
Src0 == TLCEval((1 :> [blob |-> Blob1, len |-> 8292]) @@ (2 :> [blob |-> Blob2, len |-> 8292]))
SizeAt == 32768             \* where the sizes go
Word8 == <<8721, 17459, 26197, 34935>>

VARIABLES mem, trk, ids, sn, sh, hist
vars == <<mem, trk, ids, sn, sh, hist>>
src == [i \in ids |-> Src0[i]]

Op(k, p, n, id, o) == [k |-> k, a |-> p, n |-> n, id |-> id, o |-> o]
OpOf ==
  [ a10 |-> Op("sstore", FirstOf(PA), 4096, 1, 0),        b11 |-> Op("sstore", FirstOf(PB), 4096, 1, 4096),
    b21 |-> Op("sstore", FirstOf(PB), 4096, 2, 4096),     ab1 |-> Op("sstore", FirstOf(PA), 8192, 1, 0),
    h20 |-> Op("sstore", FirstOf(PA) + 2048, 8192, 2, 0), c20 |-> Op("sstore", FirstOf(PC), 4096, 2, 0),
    cov |-> Op("sstore", FirstOf(PC), 8192, 1, 0),        a1t |-> Op("sstore", FirstOf(PA), 8192, 1, 4096),
    wA |-> Op("st", FirstOf(PA), 8, 0, 0),  wB |-> Op("st", FirstOf(PB), 8, 0, 0), wS |-> Op("st", FirstOf(PB) - 2, 8, 0, 0),
    uA |-> Op("untrack", FirstOf(PA), 4096, 0, 0), uS |-> Op("untrack", FirstOf(PB) - 1, 2, 0, 0),
    fB |-> Op("sf", PB, 1, 0, 0),  xB |-> Op("sf", PB, 2, 0, 0),  cB |-> Op("cf", PB, 3, 0, 0),
    iAB |-> Op("init", FirstOf(PA), 8192, 0, 100), iB3 |-> Op("init", FirstOf(PB), 4096, 3, 0),
    iC1 |-> Op("init", FirstOf(PC), 4096, 1, 2),
    gon |-> Op("gone", 0, 0, 2, 0),
    sn1 |-> Op("snap", 0, 0, 0, 0),        \* a full snapshot
    sn2 |-> Op("snap2", 0, 0, 0, 0),
    rnw |-> Op("new", 0, 0, 0, 0),         \* a machine just built, a new context, resume the last snapshot
    rkp |-> Op("keep", 0, 0, 0, 0),        \* a machine just built, the context kept
    r1n |-> Op("first", 0, 0, 0, 0),       \* the same with the first snapshot
    rhr |-> Op("here", 0, 0, 0, 0) ]       \* on the same machine

Canon(m2) == [sz |-> Sz, img |-> <<>>, cz |-> FALSE, wr |-> TLCEval([i \in Win |-> Hw(m2, i)]),
              fl |-> TLCEval([p \in Pgs |-> Flag(m2, p)])]
Blank == Canon(NewMem(Sz))
MM(m2) == [r |-> 0, pc |-> 0, lr |-> 0, mem |-> m2, cyc |-> 0, max |-> 0]
Which(o) == IF o.k = "first" THEN 1 ELSE Len(sn)
Enabled2(o) ==
  CASE o.k \in {"new", "keep", "here"} -> sn # <<>>
    [] o.k = "first" -> Len(sn) > 1
    [] o.k \in {"snap", "snap2"} -> Len(sn) < 2
    [] o.k = "gone" -> 2 \in ids
    [] OTHER -> TRUE

\* [e, mem, trk]
Do(o) ==
  CASE o.k = "sstore" ->
         LET s == SourceStore(CS0, mem, trk, src, W(o.a), o.id, W(o.o), W(o.n), W(SizeAt)) IN
         [e |-> s.e, mem |-> s.mem, trk |-> s.trk]
    [] o.k = "untrack" -> LET s == Untrack(mem, trk, W(o.a), o.n) IN [e |-> s.e, mem |-> s.mem, trk |-> s.trk]
    [] o.k = "st" -> LET s == Store(mem, W(o.a), 8, Word8) IN [e |-> s[1], mem |-> s[3], trk |-> trk]
    [] o.k = "init" ->
         LET s == InitPagesAt(mem, W(o.a), W(o.n), o.id, Blob1, 0, o.n - 2 * o.o, W(o.o), FALSE) IN
         [e |-> s[1], mem |-> s[3], trk |-> trk]
    [] o.k = "sf" -> [e |-> "", mem |-> SetFlags(mem, {o.a}, o.n), trk |-> trk]
    [] o.k = "cf" -> [e |-> "", mem |-> ClearFlags(mem, {o.a}, o.n), trk |-> trk]
    [] o.k \in {"new", "keep", "first", "here"} ->
         LET s == sn[Which(o)]
             mm == MM(IF o.k = "here" THEN mem ELSE Blank)
             t == IF s.two THEN Resume2(mm, s, src, FALSE) ELSE Resume1(mm, s, FALSE) @@ [trk |-> NoTrk]
         IN [e |-> t.e, mem |-> t.m.mem, trk |-> t.trk]
    [] OTHER -> [e |-> "", mem |-> mem, trk |-> trk]

(***************************************************************************)
(* The demands.                                                            *)
(***************************************************************************)
\* a page that is tracked and not dirty holds exactly what its source says
Faithful(m2, t2, s2) ==
  \A p \in DOMAIN t2 :
    ~IsDirty(Flag(m2, p)) => \A k \in Marks : Hw(m2, 2048 * p + k) = Half(t2[p].id, t2[p].off + 2 * k)
\* whatever is not blank is dirty or tracked
Covered(m2, t2) ==
  \A p \in Pgs : (\E k \in Marks : Hw(m2, 2048 * p + k) # 0) => IsDirty(Flag(m2, p)) \/ p \in DOMAIN t2
Same(m2, s) == \A i \in Win : Hw(m2, i) = s[i]
\* the contents by the definition of the operations
Put(o) == [i \in Win |->
             LET b == 2 * i - o.a  c == b + 1
                 old == sh[i]
                 byte(j) == LET h == Half(o.id, o.o + j) IN IF (o.o + j) % 2 = 0 THEN h % 256 ELSE h \div 256
                 \* (the length is cut at the end of the source)
                 n == IF o.n > 8292 - o.o THEN 8292 - o.o ELSE o.n
                 st(j) == LET h == Word8[(j \div 2) + 1] IN IF j % 2 = 0 THEN h % 256 ELSE h \div 256
                 in(j) == IF j < o.o \/ j >= o.n - o.o THEN 0
                          ELSE LET h == Half(1, j - o.o) IN IF (j - o.o) % 2 = 0 THEN h % 256 ELSE h \div 256
                 at(j, was) == IF o.k = "init" THEN (IF j >= 0 /\ j < o.n THEN in(j) ELSE was)
                               ELSE IF o.k = "sstore" THEN (IF j >= 0 /\ j < n THEN byte(j) ELSE was)
                               ELSE (IF j >= 0 /\ j < 8 THEN st(j) ELSE was)
             IN at(b, old % 256) + 256 * at(c, old \div 256)]
NewSh(o) == CASE o.k \in {"sstore", "st", "init"} -> Put(o)
              [] o.k \in {"new", "keep", "first"} -> sn[Which(o)].was
              [] o.k = "here" ->   \* the pages the snapshot knows
                   LET s == sn[Which(o)] IN
                   [i \in Win |-> IF IsDirty(s.fl[i \div 2048]) \/ i \div 2048 \in DOMAIN s.trk THEN s.was[i] ELSE sh[i]]
              [] OTHER -> sh
Ok(o, r) ==
  r.e = "" =>
    /\ Same(r.mem, NewSh(o))
    /\ Faithful(r.mem, r.trk, src)
    /\ o.k # "here" => Covered(r.mem, r.trk)
    \* the flags come back with the pages
    /\ o.k \in {"new", "keep", "first"} =>
         LET s == sn[Which(o)] IN
         \A p \in Pgs : IF IsDirty(s.fl[p]) THEN Flag(r.mem, p) = s.fl[p]
                        ELSE IF p \in DOMAIN s.trk THEN Flag(r.mem, p) = s.trk[p].fl
                        ELSE Flag(r.mem, p) = 0
    \* frozen pages are not initialised again, executable ones are not written
    /\ o.k = "init" => \A p \in Pgs : HasFrozen(Flag(mem, p)) => \A k \in Marks : NewSh(o)[2048 * p + k] = sh[2048 * p + k]
    /\ o.k \in {"sstore", "st"} =>
         \A p \in Pgs : HasExec(Flag(mem, p)) => \A k \in Marks : NewSh(o)[2048 * p + k] = sh[2048 * p + k]

Ended == IF hist = <<>> THEN FALSE ELSE hist[Len(hist)] = "end"
Init == /\ mem = Blank
        /\ trk = NoTrk
        /\ ids = {1, 2}
        /\ sn = <<>>
        /\ sh = TLCEval([i \in Win |-> 0])
        /\ hist = <<>>
Next ==
  \E name \in Names :
    LET o == OpOf[name] IN
    /\ Len(hist) < Depth /\ ~Ended
    /\ Enabled2(o)
    /\ LET r == Do(o) IN
       /\ Assert(Ok(o, r), <<"transition", hist, name, r.e>>)
       /\ IF o.k # "here" /\ (r.e = "" \/ o.k \in {"sstore", "st", "untrack"})
          THEN /\ mem' = Canon(r.mem) /\ trk' = TLCEval(r.trk)
               /\ hist' = Append(hist, name)
               \* a write that failed half-way: on from what the specification says it is
               /\ sh' = TLCEval(IF r.e = "" THEN NewSh(o) ELSE [i \in Win |-> Hw(r.mem, i)])
          ELSE \* a resume that failed, or one on a used machine (which may have pages
               \* that are neither dirty nor tracked): the end of the history
               /\ UNCHANGED <<mem, trk, sh>> /\ hist' = hist \o <<name, "end">>
       /\ ids' = IF o.k = "gone" THEN {1} ELSE ids
       /\ sn' = IF o.k \in {"snap", "snap2"} THEN Append(sn, [two |-> o.k = "snap2", r |-> 0, pc |-> 0, lr |-> 0, cyc |-> 0, max |-> 0, mem |-> mem, trk |-> IF o.k = "snap2" THEN trk ELSE NoTrk,
                                                  was |-> sh, fl |-> mem.fl]) ELSE sn
       /\ RandomElement(1..Sample) = 1 => PrintT("@CASE " \o ToJson(hist'))
All == (DOMAIN OpOf) \ {"sn1", "iAB", "iB3", "iC1"}
Full == {"iAB", "iB3", "iC1", "sn1", "wA", "wB", "wS", "fB", "xB", "cB", "rnw", "r1n", "rhr"}
Spec == Init /\ [][Next]_vars
View == <<mem, trk, ids, sn, sh, Ended>>
=============================================================================
