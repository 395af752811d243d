-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 64-bit machine words for TLC.                                           *)
(*                                                                         *)
(* TLC integers are 32 bits wide, so a word is a tuple of four 16-bit      *)
(* limbs, least significant first: <<l0, l1, l2, l3>>.  32-bit machines    *)
(* (XLEN = 32) keep their register values zero-extended in the same        *)
(* representation.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

B16 == 65536
Zero == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>
AllOnes == <<65535, 65535, 65535, 65535>>
\* smallest signed values
Min64 == <<0, 0, 0, 32768>>
Min32S == <<0, 32768, 65535, 65535>>

P2 == [i \in 0..16 |-> 2^i]

\* word from a natural below 2^31
W(n) == <<n % B16, n \div B16, 0, 0>>
\* truncate to 32 bits, zero / sign extended
Zext32(a) == <<a[1], a[2], 0, 0>>
Sext32(a) == IF a[2] >= 32768 THEN <<a[1], a[2], 65535, 65535>> ELSE <<a[1], a[2], 0, 0>>
Sext16(a) == IF a[1] >= 32768 THEN <<a[1], 65535, 65535, 65535>> ELSE <<a[1], 0, 0, 0>>
Zext16(a) == <<a[1], 0, 0, 0>>
Sext8(a) == LET b == a[1] % 256 IN
            IF b >= 128 THEN <<b + 65280, 65535, 65535, 65535>> ELSE <<b, 0, 0, 0>>
Zext8(a) == <<a[1] % 256, 0, 0, 0>>

WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

\* addition with carry out: <<sum, carry>>
AddC(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div B16
      s3 == a[3] + b[3] + s2 \div B16
      s4 == a[4] + b[4] + s3 \div B16
  IN <<<<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>, s4 \div B16>>
Add(a, b) == AddC(a, b)[1]
Sub(a, b) == AddC(AddC(a, WNot(b))[1], One)[1]
Neg(a) == Add(WNot(a), One)

\* word from a (possibly negative) integer of magnitude below 2^31
SX(n) == IF n >= 0 THEN W(n) ELSE WNot(W(-n - 1))

IsNeg(a) == a[4] >= 32768
Ltu(a, b) ==
  IF a[4] # b[4] THEN a[4] < b[4]
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE a[1] < b[1]
Lt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE Ltu(a, b)
Bool(b) == IF b THEN One ELSE Zero

Shl(a, n) ==
  LET q == n \div 16  r == n % 16  m == P2[r]  d == P2[16 - r]
      L(i) == IF i < 1 THEN 0 ELSE a[i]
      R(i) == ((L(i - q) * m) % B16) + (L(i - q - 1) \div d)
  IN <<R(1), R(2), R(3), R(4)>>
Shr(a, n) ==
  LET q == n \div 16  r == n % 16  m == P2[r]  d == P2[16 - r]
      L(i) == IF i > 4 THEN 0 ELSE a[i]
      R(i) == (L(i + q) \div m) + (L(i + q + 1) % m) * d
  IN <<R(1), R(2), R(3), R(4)>>
Sra(a, n) == IF IsNeg(a) THEN WNot(Shr(WNot(a), n)) ELSE Shr(a, n)

Shl1(a) == <<(a[1] * 2) % B16, ((a[2] * 2) % B16) + a[1] \div 32768,
             ((a[3] * 2) % B16) + a[2] \div 32768, ((a[4] * 2) % B16) + a[3] \div 32768>>

\* i-th bit (0..63)
Bit(a, i) == (a[(i \div 16) + 1] \div P2[i % 16]) % 2

(***************************************************************************)
(* Multiplication: 128-bit unsigned product as eight 16-bit limbs.         *)
(***************************************************************************)
ByteOf(a, i) == LET l == a[(i \div 2) + 1] IN IF i % 2 = 0 THEN l % 256 ELSE l \div 256
Bytes8(a) == <<a[1] % 256, a[1] \div 256, a[2] % 256, a[2] \div 256,
               a[3] % 256, a[3] \div 256, a[4] % 256, a[4] \div 256>>
RECURSIVE ColSum(_, _, _, _)
ColSum(x, y, k, i) == \* sum over i..min(k,7) of x[i]*y[k-i] (0-based)
  IF i > k \/ i > 7 THEN 0
  ELSE IF k - i > 7 THEN ColSum(x, y, k, i + 1)
  ELSE (IF x[i + 1] = 0 THEN 0 ELSE x[i + 1] * y[k - i + 1]) + ColSum(x, y, k, i + 1)
RECURSIVE MulLimbs(_, _, _, _)
MulLimbs(x, y, k, carry) == \* limbs k..7, each two byte columns
  IF k > 7 THEN <<>>
  ELSE LET c0 == ColSum(x, y, 2 * k, 0) + carry
           c1 == ColSum(x, y, 2 * k + 1, 0) + c0 \div 256
       IN <<(c0 % 256) + 256 * (c1 % 256)>> \o MulLimbs(x, y, k + 1, c1 \div 256)
MulU128(a, b) == MulLimbs(Bytes8(a), Bytes8(b), 0, 0)
Lo64(p) == <<p[1], p[2], p[3], p[4]>>
Hi64(p) == <<p[5], p[6], p[7], p[8]>>
Mul(a, b) == Lo64(MulU128(a, b))
Mulhu(a, b) == Hi64(MulU128(a, b))
\* signed high product: correct the unsigned one
Mulh(a, b) ==
  LET h == Mulhu(a, b)
      h1 == IF IsNeg(a) THEN Sub(h, b) ELSE h
  IN IF IsNeg(b) THEN Sub(h1, a) ELSE h1
Mulhsu(a, b) == LET h == Mulhu(a, b) IN IF IsNeg(a) THEN Sub(h, b) ELSE h

(***************************************************************************)
(* Unsigned division with b # 0: <<quotient, remainder>>.                  *)
(***************************************************************************)
\* restoring division, one quotient bit per step, from bit n-1 down to 0
DivBits(a, b, n) ==
  FoldLeft(LAMBDA acc, j :
             LET q == acc[1]  r == acc[2]  i == n - j
                 s == Shl1(r)
                 r2 == <<s[1] + Bit(a, i), s[2], s[3], s[4]>>
                 ge == r[4] >= 32768 \/ ~Ltu(r2, b)
                 t == Shl1(q)
             IN IF ge THEN <<<<t[1] + 1, t[2], t[3], t[4]>>, Sub(r2, b)>> ELSE <<t, r2>>,
           <<Zero, Zero>>, [j \in 1..n |-> j])
DivShort(a, d) == \* 0 < d < 2^15
  LET t4 == a[4]                    q4 == t4 \div d  r4 == t4 % d
      t3 == r4 * B16 + a[3]         q3 == t3 \div d  r3 == t3 % d
      t2 == r3 * B16 + a[2]         q2 == t2 \div d  r2 == t2 % d
      t1 == r2 * B16 + a[1]         q1 == t1 \div d  r1 == t1 % d
  IN <<<<q1, q2, q3, q4>>, W(r1)>>
DivRemU(a, b) ==
  IF Ltu(a, b) THEN <<Zero, a>>
  ELSE IF b[2] = 0 /\ b[3] = 0 /\ b[4] = 0 /\ b[1] < 32768 THEN DivShort(a, b[1])
  ELSE DivBits(a, b, IF a[4] # 0 THEN 64 ELSE IF a[3] # 0 THEN 48 ELSE 32)
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
\* RISC-V division conventions
Divu(a, b) == IF b = Zero THEN AllOnes ELSE DivRemU(a, b)[1]
Remu(a, b) == IF b = Zero THEN a ELSE DivRemU(a, b)[2]
Div(a, b) ==
  IF b = Zero THEN AllOnes
  ELSE LET q == DivRemU(Abs(a), Abs(b))[1] IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
Rem(a, b) ==
  IF b = Zero THEN a
  ELSE LET r == DivRemU(Abs(a), Abs(b))[2] IN IF IsNeg(a) THEN Neg(r) ELSE r

(***************************************************************************)
(* Bit manipulation.                                                       *)
(***************************************************************************)
RECURSIVE PopN(_)
PopN(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopN(x \div 2)
Pop8 == [x \in 0..255 |-> PopN(x)]
Pop16(x) == Pop8[x % 256] + Pop8[x \div 256]
Cpop(a) == Pop16(a[1]) + Pop16(a[2]) + Pop16(a[3]) + Pop16(a[4])
RECURSIVE LenN(_)
LenN(x) == IF x = 0 THEN 0 ELSE 1 + LenN(x \div 2)
\* number of leading zeros within 64 bits
Clz(a) == IF a[4] # 0 THEN 16 - LenN(a[4])
          ELSE IF a[3] # 0 THEN 32 - LenN(a[3])
          ELSE IF a[2] # 0 THEN 48 - LenN(a[2])
          ELSE 64 - LenN(a[1])
RECURSIVE TzN(_)
TzN(x) == IF x % 2 = 1 THEN 0 ELSE 1 + TzN(x \div 2)
Ctz(a) == IF a[1] # 0 THEN TzN(a[1])
          ELSE IF a[2] # 0 THEN 16 + TzN(a[2])
          ELSE IF a[3] # 0 THEN 32 + TzN(a[3])
          ELSE IF a[4] # 0 THEN 48 + TzN(a[4])
          ELSE 64
Rol(a, n) == IF n = 0 THEN a ELSE WOr(Shl(a, n), Shr(a, 64 - n))
Ror(a, n) == IF n = 0 THEN a ELSE WOr(Shr(a, n), Shl(a, 64 - n))
Rol32(a, n) == LET z == Zext32(a) IN
  IF n = 0 THEN z ELSE Zext32(WOr(Shl(z, n), Shr(z, 32 - n)))
Ror32(a, n) == Rol32(a, (32 - n) % 32)
Swap16(x) == (x % 256) * 256 + x \div 256
Rev8(a) == <<Swap16(a[4]), Swap16(a[3]), Swap16(a[2]), Swap16(a[1])>>
Orc16(x) == (IF x % 256 # 0 THEN 255 ELSE 0) + (IF x \div 256 # 0 THEN 65280 ELSE 0)
OrcB(a) == <<Orc16(a[1]), Orc16(a[2]), Orc16(a[3]), Orc16(a[4])>>
\* carry-less product: xor of a << i (low), or a >> (top - i) (high parts), over the bits i of b
BitIdx == [j \in 1..64 |-> j - 1]
Clmul(a, b) ==
  FoldLeft(LAMBDA acc, i : IF Bit(b, i) = 1 THEN WXor(acc, Shl(a, i)) ELSE acc, Zero, BitIdx)
ClmulTop(a, b, top) ==
  FoldLeft(LAMBDA acc, i : IF top - i < 64 /\ Bit(b, i) = 1 THEN WXor(acc, Shr(a, top - i)) ELSE acc,
           Zero, BitIdx)
Clmulr(a, b) == ClmulTop(a, b, 63)
Clmulh(a, b) == ClmulTop(a, b, 64)

\* small non-negative value of a word known to be below 2^30
Num(a) == a[1] + B16 * a[2]
IsSmall(a) == a[3] = 0 /\ a[4] = 0 /\ a[2] < 16384
Low(a, n) == a[1] % n      \* n divides 2^16
=============================================================================
