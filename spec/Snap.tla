--------------------------------- MODULE Snap ---------------------------------
(***************************************************************************)
(* Snapshots.                                                              *)
(*                                                                         *)
(* A full snapshot holds the registers, the program counter, the           *)
(* reservation, and the contents and flags of the dirty pages.             *)
(*                                                                         *)
(* An incremental snapshot also holds the cycle counters.  Pages whose     *)
(* whole content came from a data source are tracked: they are not dirty,  *)
(* and the snapshot only refers to the source.  The tracking state is a    *)
(* function  page -> [id, off, fl].  A data source is a function           *)
(* id -> [blob, len] (halfwords, bytes).                                   *)
(***************************************************************************)
EXTENDS Elf

IsDirty(f) == (f \div 4) % 2 = 1
DirtyPages(mem) == {p \in DOMAIN mem.fl : IsDirty(mem.fl[p])}
NoTrk == [z \in {} |-> [id |-> 0, off |-> 0, fl |-> 0]]
Drop(f, ps) == [p \in (DOMAIN f) \ ps |-> f[p]]
Ascending(ps) == SetToSortSeq(ps, LAMBDA a, b : a < b)

\* replace page p by the 4096 bytes of a blob from byte offset bo on
PutPage(mem, p, blob, bo) ==
  [mem EXCEPT !.img = Append(@, MemRange([a |-> p * PageSize, n |-> PageSize, d |-> p * PageSize, len |-> PageSize,
                                       blob |-> blob, bo |-> bo, mir |-> FALSE, nz |-> {}], mem.cz)),
              !.wr = TLCEval([k \in {k \in DOMAIN @ : k \div 2048 # p} |-> @[k]])]
PageBlob(mem, p) == SubSeq([i \in 1..2048 |-> Hw(mem, p * 2048 + i - 1)], 1, 2048)

\* restoring page p: [e, a, mem]
Restore(s, p, blob, bo, fl) ==
  IF s.e # "" THEN s
  ELSE IF p >= s.mem.sz \div PageSize THEN [s EXCEPT !.e = "MemOutOfBound"]
  ELSE IF HasExec(Flag(s.mem, p)) THEN [s EXCEPT !.e = "MemWriteOnExecutablePage", !.a = p]
  ELSE [s EXCEPT !.mem = SetFlags(PutPage(s.mem, p, blob, bo), {p}, fl)]

RestoreDirty(s, saved) ==
  FoldLeft(LAMBDA t, p : Restore(t, p, PageBlob(saved, p), 0, Flag(saved, p)), s, Ascending(DirtyPages(saved)))

\* the memory as the snapshot knows it: marks put directly on clean pages are in no snapshot
Known(s, trk) ==
  [s.mem EXCEPT !.fl = TLCEval([p \in (DOMAIN @) \cup (DOMAIN trk) |->
     LET f == Flag(s.mem, p) IN IF IsDirty(f) THEN f ELSE IF p \in DOMAIN trk THEN trk[p].fl ELSE 0])]
CoreOf(mm, s) == [mm EXCEPT !.r = s.r, !.pc = s.pc, !.lr = s.lr]
(***************************************************************************)
(* Resuming.  On a machine nothing was done with yet (fresh) the memory    *)
(* and flags afterwards are those of the machine the snapshot was taken    *)
(* of, but for marks the host had put directly on clean pages.  On any     *)
(* other machine the pages of the snapshot replace those of the machine.   *)
(***************************************************************************)
\* resuming a full snapshot on machine mm: [e, a, m]
Resume1(mm, s, fresh) ==
  IF fresh THEN [e |-> "", a |-> 0, m |-> [CoreOf(mm, s) EXCEPT !.mem = Known(s, NoTrk)]]
  ELSE
  LET t == RestoreDirty([e |-> "", a |-> 0, mem |-> mm.mem], s.mem) IN
  [e |-> t.e, a |-> t.a, m |-> [CoreOf(mm, s) EXCEPT !.mem = t.mem]]

(***************************************************************************)
(* Tracking.                                                               *)
(***************************************************************************)
FullPages(a, n) == \* the pages that lie inside n bytes from a
  IF n = 0 THEN {} ELSE ((a + PageSize - 1) \div PageSize)..(((a + n) \div PageSize) - 1)
Track(mem, trk, a, n, id, off) ==
  LET ps == FullPages(a, n)
      mem2 == IF ps = {} THEN mem ELSE ClearFlags(mem, ps, DIRTY)
  IN [mem |-> mem2,
      trk |-> [p \in (DOMAIN trk) \cup ps |->
                IF p \in ps THEN [id |-> id, off |-> off + p * PageSize - a, fl |-> Flag(mem2, p)] ELSE trk[p]]]
\* [e, mem, trk]; a may be anything
Untrack(mem, trk, a, n) ==
  IF n = 0 THEN [e |-> "", mem |-> mem, trk |-> trk]
  ELSE IF ~InRange(mem, a, n)
  THEN LET ps == IF InRange(mem, a, 1) THEN Pages(Num(a), mem.sz - Num(a)) ELSE {} IN
       \* (not demanded of the code: the pages that exist are no longer tracked, but dirty)
       [e |-> "MemOutOfBound", mem |-> SetFlags(mem, ps, DIRTY), trk |-> Drop(trk, ps)]
  ELSE LET ps == Pages(Num(a), n) IN [e |-> "", mem |-> SetFlags(mem, ps, DIRTY), trk |-> Drop(trk, ps)]

\* bytes available: [ok, n, full]
Available(src, id, off, n) ==
  IF id \notin DOMAIN src THEN [ok |-> FALSE, n |-> 0, full |-> 0]
  ELSE LET len == src[id].len
           full == IF IsSmall(off) /\ Num(off) <= len THEN len - Num(off) ELSE 0
           want == IF IsSmall(n) THEN Num(n) ELSE full
       IN [ok |-> TRUE, full |-> full, n |-> IF want = 0 \/ want > full THEN full ELSE want]

\* copying from the data source to a, the available length to sa:
\* [e, a, mem, trk, val, full]
SourceStore(cs, mem, trk, src, a, id, off, n, sa) ==
  LET av == Available(src, id, off, n)
      out(e, arg, mm, tt) == [e |-> e, a |-> arg, mem |-> mm, trk |-> tt, val |-> av.n, full |-> av.full]
  IN IF ~av.ok THEN out("SnapshotDataLoadError", 0, mem, trk)
     ELSE LET s == Store(mem, Trunc(cs, sa), 8, W(av.full)) IN
          IF s[1] # "" THEN out(s[1], s[2], mem, trk)
          ELSE LET u == Untrack(s[3], trk, a, av.n) IN
               IF u.e # "" THEN out(u.e, 0, u.mem, u.trk)
               ELSE LET b == src[id].blob
                        chk == IF av.n = 0 THEN <<"", 0>> ELSE CheckWrite(u.mem, a, av.n)
                    IN
                    IF chk[1] # "" THEN out(chk[1], chk[2], u.mem, u.trk)
                    ELSE IF av.n = 0 THEN out("", 0, u.mem, u.trk)
                    ELSE LET t == PutRange(u.mem, Num(a), av.n, b, Num(off), TRUE)
                             k == Track(t, u.trk, Num(a), av.n, id, Num(off)) IN out("", 0, k.mem, k.trk)

\* after loading the program f, which is at offset off of source id
MarkProgram(cs, mem, trk, f, len, id, off) ==
  LET p == ParseElf(f, len, cs.x, cs.v)
      Mark(s, t) ==
        LET u == Untrack(s.mem, s.trk, t.a, Num(t.n))
            pad == Num(t.pad)
            k == IF t.len < Num(t.n) - pad THEN t.len ELSE Num(t.n) - pad
        IN IF s.e # "" THEN s
           ELSE IF u.e # "" THEN [e |-> u.e, mem |-> u.mem, trk |-> u.trk]
           ELSE LET q == Track(u.mem, u.trk, Num(t.a) + pad, k, id, off + t.o)
                IN [e |-> "", mem |-> q.mem, trk |-> q.trk]
  IN IF p.e # "" THEN [e |-> p.e, mem |-> mem, trk |-> trk]
     ELSE FoldLeft(Mark, [e |-> "", mem |-> mem, trk |-> trk], p.acts)

\* the pages a snapshot takes from the source
SourcePages(mem, trk) == {p \in DOMAIN trk : ~IsDirty(Flag(mem, p))}

\* resuming an incremental snapshot s with the source src: [e, a, m, trk]
Resume2(mm, s, src, fresh) ==
  LET ps == SourcePages(s.mem, s.trk)
      gone == {p \in ps : s.trk[p].id \notin DOMAIN src \/ s.trk[p].off + PageSize > src[s.trk[p].id].len}
      out(e, a, mem) == [e |-> e, a |-> a,
                         m |-> [CoreOf(mm, s) EXCEPT !.mem = mem, !.cyc = s.cyc, !.max = s.max],
                         trk |-> TLCEval([p \in ps |-> [s.trk[p] EXCEPT !.fl = Flag(mem, p)]])]
      t0 == [e |-> IF gone # {} THEN "SnapshotDataLoadError" ELSE "", a |-> 0, mem |-> mm.mem]
      t1 == FoldLeft(LAMBDA t, p : Restore(t, p, src[s.trk[p].id].blob, s.trk[p].off, s.trk[p].fl), t0, Ascending(ps))
      t2 == IF ps = {} THEN t1 ELSE [t1 EXCEPT !.mem = ClearFlags(@, ps, DIRTY)]
      t3 == RestoreDirty(t2, s.mem)
  IN IF fresh /\ gone = {} /\ src = s.src THEN out("", 0, Known(s, s.trk)) ELSE out(t3.e, t3.a, t3.mem)
===============================================================================
