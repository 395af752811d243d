-------------------------------- MODULE Mem ---------------------------------
(***************************************************************************)
(* Guest memory: one little-endian byte array plus one flag byte per page. *)
(*                                                                         *)
(* A memory is a record                                                    *)
(*   sz   size in bytes (a multiple of the page size)                      *)
(*   img  sequence of initialised ranges, newest last:                     *)
(*          [a |-> first byte, n |-> size, d |-> first byte of the data,   *)
(*           len |-> bytes of data, blob |-> halfwords holding the data,   *)
(*           bo |-> offset of its first byte in the blob,                  *)
(*           nz |-> its halfwords that are not zero (if not mir, see Conf)]*)
(*        (a range is zero outside its data)                               *)
(*   wr   halfword index -> value, everything written after the ranges     *)
(*   fl   page -> flags (absent: 0)                                        *)
(* Everything not covered reads as zero.                                   *)
(***************************************************************************)
EXTENDS Word, FiniteSets, Json, IOUtils

PageSize == 4096
FREEZED == 1
EXEC == 2
DIRTY == 4
EmptyFn == [z \in {} |-> 0]

\* cz: in chaos mode what nobody wrote to is not zero; the recorder says what it is
NewMemC(sz, cz) == [sz |-> sz, img |-> <<>>, wr |-> EmptyFn, fl |-> EmptyFn, cz |-> cz]
NewMem(sz) == NewMemC(sz, FALSE)
ChaosFrame == IF "CHAOS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CHAOS) ELSE <<>>
Unwritten(cz, i) == IF cz THEN ChaosFrame[(i % 131072) + 1] ELSE 0

\* functional override with a function over a finite set
Over(f, g) == TLCEval([z \in (DOMAIN f) \cup (DOMAIN g) |-> IF z \in DOMAIN g THEN g[z] ELSE f[z]])

\* ---- contents -----------------------------------------------------------
BlobByte(r, o) == \* o-th byte of the range's data (0 outside)
  IF o < 0 \/ o >= r.len THEN 0
  ELSE LET k == o + r.bo  h == r.blob[(k \div 2) + 1] IN IF k % 2 = 0 THEN h % 256 ELSE h \div 256
RegHw(r, i) == \* halfword i of memory, inside range r
  LET o == 2 * i - r.d IN
  IF o + 1 < 0 \/ o >= r.len THEN 0
  ELSE IF o >= 0 /\ (o + r.bo) % 2 = 0 /\ o + 1 < r.len THEN r.blob[((o + r.bo) \div 2) + 1]
  ELSE BlobByte(r, o) + 256 * BlobByte(r, o + 1)
NonZero(r) == IF r.mir \/ r.len = 0 THEN {}
              ELSE TLCEval({i \in (r.d \div 2)..((r.d + r.len - 1) \div 2) : RegHw(r, i) # 0})
MemRange(r, cz) == [r EXCEPT !.nz = IF cz /\ ~r.mir THEN (r.a \div 2)..((r.a + r.n - 1) \div 2) ELSE NonZero(r)]
RECURSIVE ImgHw(_, _, _, _)
ImgHw(img, j, i, cz) ==
  IF j = 0 THEN Unwritten(cz, i)
  ELSE LET r == img[j] IN
       IF 2 * i >= r.a /\ 2 * i < r.a + r.n THEN RegHw(r, i) ELSE ImgHw(img, j - 1, i, cz)
Hw(mem, i) == IF i \in DOMAIN mem.wr THEN mem.wr[i] ELSE ImgHw(mem.img, Len(mem.img), i, mem.cz)
ByteAt(mem, a) == LET h == Hw(mem, a \div 2) IN IF a % 2 = 0 THEN h % 256 ELSE h \div 256

\* zero-extended value of w bytes at address a (an in-range integer)
LoadW(mem, a, w) ==
  LET i == a \div 2 IN
  IF w = 1 THEN <<ByteAt(mem, a), 0, 0, 0>>
  ELSE IF a % 2 = 0
  THEN CASE w = 2 -> <<Hw(mem, i), 0, 0, 0>>
         [] w = 4 -> <<Hw(mem, i), Hw(mem, i + 1), 0, 0>>
         [] OTHER -> <<Hw(mem, i), Hw(mem, i + 1), Hw(mem, i + 2), Hw(mem, i + 3)>>
  ELSE LET L(k) == (Hw(mem, i + k) \div 256) + (Hw(mem, i + k + 1) % 256) * 256 IN
       CASE w = 2 -> <<L(0), 0, 0, 0>>
         [] w = 4 -> <<L(0), L(1), 0, 0>>
         [] OTHER -> <<L(0), L(1), L(2), L(3)>>

\* the halfwords changed by storing the low w bytes of v at a
StoreFn(mem, a, w, v) ==
  LET i == a \div 2 IN
  IF w = 1
  THEN LET h == Hw(mem, i) IN
       (i :> (IF a % 2 = 0 THEN (h \div 256) * 256 + (v[1] % 256) ELSE (h % 256) + (v[1] % 256) * 256))
  ELSE LET n == w \div 2 IN
       IF a % 2 = 0 THEN [k \in i..(i + n - 1) |-> v[k - i + 1]]
       ELSE [k \in i..(i + n) |->
              IF k = i THEN (Hw(mem, i) % 256) + (v[1] % 256) * 256
              ELSE IF k = i + n THEN (Hw(mem, k) \div 256) * 256 + v[n] \div 256
              ELSE v[k - i] \div 256 + (v[k - i + 1] % 256) * 256]
\* the halfwords changed by writing n bytes at a, the j-th (0-based) being G(j)
BytesFn(mem, a, n, G(_)) ==
  [k \in (a \div 2)..((a + n - 1) \div 2) |->
     LET lo == 2 * k - a  hi == lo + 1  h == Hw(mem, k) IN
     (IF lo >= 0 THEN G(lo) ELSE h % 256) + 256 * (IF hi < n THEN G(hi) ELSE h \div 256)]

\* ---- flags --------------------------------------------------------------
Flag(mem, p) == IF p \in DOMAIN mem.fl THEN mem.fl[p] ELSE 0
HasExec(f) == (f \div 2) % 2 = 1
HasFrozen(f) == f % 2 = 1
Pages(a, n) == (a \div PageSize)..((a + n - 1) \div PageSize)
SetFlags(mem, ps, f) ==
  IF \A p \in ps : p \in DOMAIN mem.fl /\ (mem.fl[p] & f) = f THEN mem
  ELSE [mem EXCEPT !.fl = Over(@, [p \in ps |-> Flag(mem, p) | f])]
ClearFlags(mem, ps, f) ==
  [mem EXCEPT !.fl = Over(@, [p \in ps |-> Flag(mem, p) & (255 - f)])]

\* ---- bounds -------------------------------------------------------------
InRange(mem, a, n) == IsSmall(a) /\ n <= mem.sz /\ Num(a) <= mem.sz - n
\* first page of a set of pages (in address order) that fails a test, or -1
BadPage(mem, ps, wantExec) ==
  LET bad == {p \in ps : HasExec(Flag(mem, p)) # wantExec} IN
  IF bad = {} THEN -1 ELSE CHOOSE p \in bad : \A q \in bad : p <= q

\* ---- writes (the caller checked bounds and permissions) -----------------
Write(mem, a, w, v) ==
  SetFlags([mem EXCEPT !.wr = Over(@, StoreFn(mem, a, w, v))], Pages(a, w), DIRTY)
WriteBytes(mem, a, n, G(_)) ==
  IF n = 0 THEN mem
  ELSE SetFlags([mem EXCEPT !.wr = Over(@, BytesFn(mem, a, n, G))], Pages(a, n), DIRTY)

\* n > 0 bytes at a from a blob's byte bo on, all pages dirty
PutRange(mem, a, n, blob, bo, mir) ==
  LET from == a + (a % 2)  to == (a + n) - ((a + n) % 2)
      edge == (IF a % 2 = 1 THEN {a \div 2} ELSE {}) \cup (IF (a + n) % 2 = 1 THEN {(a + n - 1) \div 2} ELSE {})
      G(j) == LET h == blob[((bo + j) \div 2) + 1] IN IF (bo + j) % 2 = 0 THEN h % 256 ELSE h \div 256
      ew == [k \in edge |-> LET lo == 2 * k - a  h == Hw(mem, k) IN
               (IF lo >= 0 THEN G(lo) ELSE h % 256) + 256 * (IF lo + 1 < n THEN G(lo + 1) ELSE h \div 256)]
      m2 == IF from >= to THEN mem
            ELSE [mem EXCEPT !.img = Append(@, MemRange([a |-> from, n |-> to - from, d |-> from, len |-> to - from,
                                                blob |-> blob, bo |-> bo + from - a, mir |-> mir, nz |-> {}], mem.cz)),
                             !.wr = TLCEval([k \in {k \in DOMAIN @ : 2 * k < from \/ 2 * k >= to} |-> @[k]])]
  IN SetFlags([m2 EXCEPT !.wr = Over(@, ew)], Pages(a, n), DIRTY)

(***************************************************************************)
(* Checked operations: <<error, argument, memory'>> with error "" if fine. *)
(* The argument of a bounds error is unspecified; that of a permission     *)
(* error is the first offending page.                                      *)
(***************************************************************************)
Fail(mem, e, arg) == <<e, arg, mem>>
Done(mem) == <<"", 0, mem>>
CheckWrite(mem, a, n) ==
  IF ~InRange(mem, a, n) THEN <<"MemOutOfBound", 0>>
  ELSE LET p == BadPage(mem, Pages(Num(a), n), FALSE) IN
       IF p >= 0 THEN <<"MemWriteOnExecutablePage", p>> ELSE <<"", 0>>
Store(mem, a, w, v) ==
  LET c == CheckWrite(mem, a, w) IN
  IF c[1] # "" THEN Fail(mem, c[1], c[2]) ELSE Done(Write(mem, Num(a), w, v))
StoreBytes(mem, a, n, G(_)) ==
  IF n = 0 THEN Done(mem)
  ELSE LET c == CheckWrite(mem, a, n) IN
       IF c[1] # "" THEN Fail(mem, c[1], c[2]) ELSE Done(WriteBytes(mem, Num(a), n, G))

\* the same with the bytes G(0), ..., kept as a range if there are many
StoreMany(mem, a, n, G(_)) ==
  IF n < 512 THEN StoreBytes(mem, a, n, G)
  ELSE LET c == CheckWrite(mem, a, n)
           blob == [k \in 1..((n + 1) \div 2) |-> G(2 * k - 2) + 256 * (IF 2 * k - 1 < n THEN G(2 * k - 1) ELSE 0)]
       IN IF c[1] # "" THEN Fail(mem, c[1], c[2])
          ELSE Done(PutRange(mem, Num(a), n, SubSeq(blob, 1, Len(blob)), 0, FALSE))

\* page initialisation with len bytes of a blob from byte bo on; address,
\* size and offset are words (mir: see Conf)
InitPagesAt(mem, a, n, flags, blob, bo, len, off, mir) ==
  IF Low(a, PageSize) # 0 THEN Fail(mem, "MemPageUnalignedAccess", 0)
  ELSE IF Low(n, PageSize) # 0 THEN Fail(mem, "MemPageUnalignedAccess", 0)
  ELSE IF ~IsSmall(a) \/ ~IsSmall(n) \/ Num(n) > mem.sz \/ Num(a) > mem.sz - Num(n)
  THEN Fail(mem, "MemOutOfBound", 0)
  ELSE IF Ltu(n, off) THEN Fail(mem, "MemOutOfBound", 0)
  ELSE LET a0 == Num(a)  n0 == Num(n)  o0 == Num(off)
           ps == IF n0 = 0 THEN {} ELSE Pages(a0, n0)
           fz == {p \in ps : HasFrozen(Flag(mem, p))}
           l0 == IF len > n0 - o0 THEN n0 - o0 ELSE len
       IN IF fz # {}
          THEN Fail(mem, "MemWriteOnFreezedPage", CHOOSE p \in fz : \A q \in fz : p <= q)
          ELSE IF n0 = 0 THEN Done(mem)
          ELSE Done(SetFlags(
                 [mem EXCEPT
                    !.img = Append(@, MemRange([a |-> a0, n |-> n0, d |-> a0 + o0, len |-> l0, blob |-> blob,
                                             bo |-> bo, mir |-> mir, nz |-> {}], mem.cz)),
                    !.wr = [k \in {k \in DOMAIN @ : 2 * k < a0 \/ 2 * k >= a0 + n0} |-> @[k]]],
                 ps, flags | DIRTY))
InitPages(mem, a, n, flags, blob, len, off) == InitPagesAt(mem, a, n, flags, blob, 0, len, off, TRUE)
=============================================================================
