--------------------------------- MODULE Word ---------------------------------
(* Arithmetic on 64-bit words, written as four 16-bit limbs, most significant    *)
(* first (TLC's integers have 32 bits).  A 32-bit word is one with the two upper  *)
(* limbs zero; the operators ending in 32 work modulo 2^32.                       *)
EXTENDS Integers, Sequences, Bitwise
Zero == <<0, 0, 0, 0>>
One == <<0, 0, 0, 1>>
W(n) == <<0, 0, n \div 65536, n % 65536>>
IsWord(x) == Len(x) = 4 /\ \A i \in 1..4 : x[i] \in 0..65535
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
NotW(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
AddW(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div 65536
      s2 == a[2] + b[2] + s3 \div 65536
      s1 == a[1] + b[1] + s2 \div 65536
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
SubW(a, b) == AddW(AddW(a, NotW(b)), One)
MulW(x, y) ==
  LET a0 == x[4] % 256  a1 == x[4] \div 256  a2 == x[3] % 256  a3 == x[3] \div 256
      a4 == x[2] % 256  a5 == x[2] \div 256  a6 == x[1] % 256  a7 == x[1] \div 256
      b0 == y[4] % 256  b1 == y[4] \div 256  b2 == y[3] % 256  b3 == y[3] \div 256
      b4 == y[2] % 256  b5 == y[2] \div 256  b6 == y[1] % 256  b7 == y[1] \div 256
      c0 == a0 * b0
      c1 == a0 * b1 + a1 * b0 + c0 \div 256
      c2 == a0 * b2 + a1 * b1 + a2 * b0 + c1 \div 256
      c3 == a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0 + c2 \div 256
      c4 == a0 * b4 + a1 * b3 + a2 * b2 + a3 * b1 + a4 * b0 + c3 \div 256
      c5 == a0 * b5 + a1 * b4 + a2 * b3 + a3 * b2 + a4 * b1 + a5 * b0 + c4 \div 256
      c6 == a0 * b6 + a1 * b5 + a2 * b4 + a3 * b3 + a4 * b2 + a5 * b1 + a6 * b0 + c5 \div 256
      c7 == a0 * b7 + a1 * b6 + a2 * b5 + a3 * b4 + a4 * b3 + a5 * b2 + a6 * b1 + a7 * b0 + c6 \div 256
  IN <<(c7 % 256) * 256 + (c6 % 256), (c5 % 256) * 256 + (c4 % 256), (c3 % 256) * 256 + (c2 % 256), (c1 % 256) * 256 + (c0 % 256)>>
L(x, i) == IF i \in 1..4 THEN x[i] ELSE 0
Pow16 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Shl(x, k) ==
  LET q == k \div 16  m == Pow16[(k % 16) + 1]  d == Pow16[17 - (k % 16)]
      Z(i) == ((L(x, i + q) * m) % 65536) + L(x, i + q + 1) \div d
  IN <<Z(1), Z(2), Z(3), Z(4)>>
Shr(x, k) ==
  LET q == k \div 16  d == Pow16[(k % 16) + 1]  m == Pow16[17 - (k % 16)]
      Z(i) == L(x, i - q) \div d + ((L(x, i - q - 1) * (IF m = 65536 THEN 0 ELSE m)) % 65536)
  IN <<Z(1), Z(2), Z(3), Z(4)>>
Rotl(x, k) == IF k % 64 = 0 THEN x ELSE OrW(Shl(x, k % 64), Shr(x, 64 - (k % 64)))
Rotr(x, k) == Rotl(x, 64 - (k % 64))
Xs(x, y) == XorW(x, y)
Low32(x) == <<0, 0, x[3], x[4]>>
High32(x) == <<0, 0, x[1], x[2]>>
Add32(a, b) == Low32(AddW(a, b))
Sub32(a, b) == Low32(SubW(a, b))
Mul32(a, b) == Low32(MulW(a, b))
Shl32(a, k) == Low32(Shl(a, k))
Rotl32(x, k) == Low32(OrW(Shl(x, k), Shr(x, 32 - k)))
Join(h, l) == <<h[3], h[4], l[3], l[4]>>
Pair(h, l) == <<0, 0, h, l>>
===============================================================================
