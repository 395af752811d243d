--------------------------------- MODULE Elf ----------------------------------
(***************************************************************************)
(* Program loading: ELF files, and the stack a program starts with.        *)
(*                                                                         *)
(* A file is a sequence of halfwords and a length in bytes.  Parsing       *)
(* yields [e, entry, acts]: an error kind, or the entry address and one    *)
(* action per loadable segment.                                            *)
(***************************************************************************)
EXTENDS Machine, SequencesExt

FByte(f, i) == LET h == f[(i \div 2) + 1] IN IF i % 2 = 0 THEN h % 256 ELSE h \div 256
\* n-byte little- or big-endian field at offset i, as a word
FField(f, i, n, be) ==
  LET b(k) == IF k >= n THEN 0 ELSE IF be THEN FByte(f, i + n - 1 - k) ELSE FByte(f, i + k)
  IN <<b(0) + 256 * b(1), b(2) + 256 * b(3), b(4) + 256 * b(5), b(6) + 256 * b(7)>>

ElfFail(e) == [e |-> e, entry |-> Zero, acts |-> <<>>]
PageDown(a) == <<a[1] - (a[1] % 4096), a[2], a[3], a[4]>>
PageUp(a) == IF a[1] % 4096 = 0 THEN <<a, 0>> ELSE AddC(PageDown(a), W(4096)) \* <<sum, carry>>

\* header layouts: file header size, entry, phoff, phnum; program header size,
\* flags, offset, vaddr, filesz, memsz (type is at 0); width of an address
Layout(class) ==
  IF class = 1
  THEN [eh |-> 52, entry |-> 24, phoff |-> 28, phnum |-> 44, ph |-> 32,
        flags |-> 24, offset |-> 4, vaddr |-> 8, filesz |-> 16, memsz |-> 20, w |-> 4]
  ELSE [eh |-> 64, entry |-> 24, phoff |-> 32, phnum |-> 56, ph |-> 56,
        flags |-> 4, offset |-> 8, vaddr |-> 16, filesz |-> 32, memsz |-> 40, w |-> 8]

PT_LOAD == W(1)
\* page flags of a segment; version 0 freezes writable segments as well
SegFlags(v, pf) ==
  LET x == pf % 2 = 1  w == (pf \div 2) % 2 = 1 IN
  IF x THEN EXEC | FREEZED ELSE IF w /\ v >= 1 THEN 0 ELSE FREEZED
SegErr(pf) ==
  IF (pf \div 4) % 2 = 0 THEN "ElfSegmentUnreadable"
  ELSE IF pf % 2 = 1 /\ (pf \div 2) % 2 = 1 THEN "ElfSegmentWritableAndExecutable" ELSE ""

ParseElf(f, len, x, v) ==
  IF len < 16 THEN ElfFail("ElfParseError")
  ELSE IF f[1] # 17791 \/ f[2] # 17996 THEN ElfFail("ElfParseError") \* 7f 45 4c 46
  ELSE LET class == FByte(f, 4)  data == FByte(f, 5) IN
  IF class \notin {1, 2} \/ data \notin {1, 2} \/ len < Layout(class).eh THEN ElfFail("ElfParseError")
  ELSE IF class # (IF x = 32 THEN 1 ELSE 2) THEN ElfFail("ElfBits")
  ELSE LET ly == Layout(class)
           be == data = 2
           phoff == FField(f, ly.phoff, ly.w, be)
           phnum == FField(f, ly.phnum, 2, be)[1]
       IN
  IF phnum > 0 /\ (~IsSmall(phoff) \/ Num(phoff) > len \/ phnum > (len - Num(phoff)) \div ly.ph)
  THEN ElfFail("ElfParseError")
  ELSE LET H(i, at, n) == FField(f, Num(phoff) + i * ly.ph + at, n, be)
           Act(i) ==
             LET vaddr == H(i, ly.vaddr, ly.w)
                 start == H(i, ly.offset, ly.w)
                 filesz == H(i, ly.filesz, ly.w)
                 pad == W(vaddr[1] % 4096)
                 end == AddC(start, filesz)
                 top == AddC(H(i, ly.memsz, ly.w), pad)
                 size == PageUp(top[1])
                 pf == H(i, ly.flags, 4)[1]
             IN IF end[2] = 1 \/ Ltu(W(len), end[1]) THEN [e |-> "ElfSegmentAddrOrSizeError"]
                ELSE IF SegErr(pf) # "" THEN [e |-> SegErr(pf)]
                ELSE [e |-> "", a |-> PageDown(vaddr), pad |-> pad, n |-> size[1],
                      big |-> top[2] = 1 \/ size[2] = 1,  \* the size exceeds 64 bits
                      fl |-> SegFlags(v, pf), o |-> Num(start), len |-> Num(filesz)]
           acts == FoldLeft(LAMBDA s, i : IF H(i, 0, 4) = PT_LOAD THEN Append(s, Act(i)) ELSE s,
                            <<>>, [i \in 1..phnum |-> i - 1])
           bad == SelectSeq(acts, LAMBDA a : a.e # "")
       IN IF bad # <<>> THEN ElfFail(bad[1].e)
          ELSE [e |-> "", entry |-> FField(f, ly.entry, ly.w, be), acts |-> acts]

\* loading the segments: [e, a, mem, bytes]
LoadSeg(cs, s, f, t) ==
  IF s.e # "" THEN s
  ELSE LET i == IF t.big THEN Fail(s.mem, "MemOutOfBound", 0)
                ELSE InitPagesAt(s.mem, t.a, t.n, t.fl, f, t.o, t.len, t.pad, FALSE)
           z == IF i[1] = "" /\ cs.v = 0 THEN StoreBytes(i[3], t.a, Num(t.pad), LAMBDA j : 0) ELSE i
       IN [e |-> z[1], a |-> z[2], mem |-> z[3], bytes |-> s.bytes + t.len]
LoadElf(cs, mem, f, len) ==
  LET p == ParseElf(f, len, cs.x, cs.v) IN
  IF p.e # "" THEN [e |-> p.e, a |-> 0, mem |-> mem, bytes |-> 0, entry |-> Zero]
  ELSE LET s == FoldLeft(LAMBDA s, t : LoadSeg(cs, s, f, t),
                         [e |-> "", a |-> 0, mem |-> mem, bytes |-> 0], p.acts)
       IN [e |-> s.e, a |-> s.a, mem |-> s.mem, bytes |-> s.bytes, entry |-> Trunc(cs, p.entry)]

(***************************************************************************)
(* The initial stack: the top quarter of memory.  args is a sequence of    *)
(* byte sequences.  Result: [e, a, mem, sp, bytes].                        *)
(***************************************************************************)
SPIDX == 3
InitStack(cs, mem, args) ==
  LET w == cs.x \div 8
      end == mem.sz
      size == mem.sz \div 4
      res(e, a, mm, sp) == [e |-> e, a |-> a, mem |-> mm, sp |-> sp, bytes |-> end - sp]
  IN
  IF cs.v >= 1 /\ args = <<>>
  THEN LET sp == end - w IN res("", 0, mem, sp - (sp % 16))
  ELSE
  LET \* the strings, each followed by a zero byte, downwards from the end
      strs == FoldLeft(LAMBDA s, arg : arg \o <<0>> \o s, <<>>, args)
      \* where they are, the last one first
      at == FoldLeft(LAMBDA s, arg : <<(IF s = <<>> THEN end ELSE s[1]) - Len(arg) - 1>> \o s, <<>>, args)
      top == end - Len(strs)
      vals == <<Len(args)>> \o Reverse(at) \o (IF cs.v >= 1 THEN <<0>> ELSE <<>>)
      low == top - w * Len(vals)
      \* aligned to 16 bytes (in version 0 as it comes)
      sp == IF cs.v >= 1 THEN low - (low % 16) ELSE low
      \* version 0 writes the low 32 bits of each item
      VByte(j) == LET k == j % w  x == vals[(j \div w) + 1] IN
                  IF k >= 4 THEN IF cs.v >= 1 THEN 0 ELSE ByteAt(mem, sp + j)
                  ELSE ((IF k >= 2 THEN x \div B16 ELSE x % B16) \div (IF k % 2 = 1 THEN 256 ELSE 1)) % 256
  IN IF top < 0 \/ low < 0 \/ sp < 0 THEN res("MemOutOfBound", 0, mem, 0)
     ELSE LET t1 == StoreMany(mem, W(top), Len(strs), LAMBDA j : strs[j + 1])
              t2 == StoreMany(t1[3], W(sp), w * Len(vals), VByte)
          IN IF t1[1] # "" THEN res(t1[1], t1[2], mem, 0)
             ELSE IF t2[1] # "" THEN res(t2[1], t2[2], mem, 0)
             ELSE IF sp < end - size THEN res("MemOutOfStack", 0, mem, 0)
             ELSE res("", 0, t2[3], sp)
StackErrors == {"MemOutOfStack", "MemOutOfBound", "MemWriteOnExecutablePage"}
=============================================================================
