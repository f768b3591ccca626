------------------------------- MODULE HashFnF --------------------------------
(* The hash functions of src/hashfunc, as published, over sequences of bytes:     *)
(* FNV-1a, fast-hash, SipHash-2-4, MurmurHash3 (three variants), SuperFastHash,    *)
(* FNV1A-Yorikke, CityHash 1.0.3 (64 and 128 bits), xxHash (32 and 64 bits).        *)
(* The streaming forms are the same functions of everything fed so far.             *)
EXTENDS Word, FiniteSets, TLC, SequencesExt
CONSTANTS Fns, Lens, Chunks, Kinds, Seeds, MaxData

B(q, i) == q[i + 1]
Le16(q, i) == <<0, 0, 0, B(q, i + 1) * 256 + B(q, i)>>
Le32(q, i) == <<0, 0, B(q, i + 3) * 256 + B(q, i + 2), B(q, i + 1) * 256 + B(q, i)>>
Le64(q, i) == <<B(q, i + 7) * 256 + B(q, i + 6), B(q, i + 5) * 256 + B(q, i + 4), B(q, i + 3) * 256 + B(q, i + 2), B(q, i + 1) * 256 + B(q, i)>>
\* up to eight bytes from offset i, the rest zero
P(q, i) == IF i < Len(q) THEN q[i + 1] ELSE 0
Tail64(q, i) == <<P(q, i + 7) * 256 + P(q, i + 6), P(q, i + 5) * 256 + P(q, i + 4), P(q, i + 3) * 256 + P(q, i + 2), P(q, i + 1) * 256 + P(q, i)>>
Tail32(q, i) == Low32(Tail64(q, i))
\* fold F over the numbers from 0 to n-1
Upto(F(_, _), z, n) == FoldLeft(F, z, [i \in 1..n |-> i - 1])
XsR(x, k) == XorW(x, Shr(x, k))

\* ---- FNV-1a
Fnv32(q) == LET F(h, b) == Mul32(XorW(h, W(b)), <<\h0000, \h0000, \h0100, \h0193>>) IN FoldLeft(F, <<\h0000, \h0000, \h811C, \h9DC5>>, q)
Fnv64(q) == LET F(h, b) == MulW(XorW(h, W(b)), <<\h0000, \h0100, \h0000, \h01B3>>) IN FoldLeft(F, <<\hCBF2, \h9CE4, \h8422, \h2325>>, q)

\* ---- fast-hash (Zilong Tan)
FhMix(h) == XsR(MulW(XsR(h, 23), <<\h2127, \h599B, \hF432, \h5C37>>), 47)
Fast64(q, seed) ==
  LET m == <<\h8803, \h55F2, \h1E6D, \h1965>>
      In(h, v) == MulW(XorW(h, FhMix(v)), m)
      n == Len(q) \div 8
      F(h, i) == In(h, Le64(q, 8 * i))
      h1 == Upto(F, XorW(seed, MulW(W(Len(q)), m)), n)
  IN FhMix(IF (Len(q) % 8) # 0 THEN In(h1, Tail64(q, 8 * n)) ELSE h1)
Fast32(q, seed) == LET h == Fast64(q, seed) IN Low32(SubW(h, High32(h)))

\* ---- SipHash-2-4
SipRound(v) ==
  LET a0 == AddW(v[1], v[2])  a2 == AddW(v[3], v[4])
      a1 == XorW(Rotl(v[2], 13), a0)  a3 == XorW(Rotl(v[4], 16), a2)
      b0 == Rotl(a0, 32)
      c2 == AddW(a2, a1)  c0 == AddW(b0, a3)
      c1 == XorW(Rotl(a1, 17), c2)  c3 == XorW(Rotl(a3, 21), c0)
  IN <<c0, c1, Rotl(c2, 32), c3>>
SipBlock(v, m) ==
  LET a == SipRound(SipRound(<<v[1], v[2], v[3], XorW(v[4], m)>>)) IN <<XorW(a[1], m), a[2], a[3], a[4]>>
Sip(q, k0, k1) ==
  LET v0 == << XorW(k0, <<\h736F, \h6D65, \h7073, \h6575>>), XorW(k1, <<\h646F, \h7261, \h6E64, \h6F6D>>), XorW(k0, <<\h6C79, \h6765, \h6E65, \h7261>>), XorW(k1, <<\h7465, \h6462, \h7974, \h6573>>) >>
      n == Len(q) \div 8
      F(v, i) == SipBlock(v, Le64(q, 8 * i))
      v1 == Upto(F, v0, n)
      last == OrW(Tail64(q, 8 * n), Shl(W(Len(q) % 256), 56))
      v2 == SipBlock(v1, last)
      v3 == SipRound(SipRound(SipRound(SipRound(<<v2[1], v2[2], XorW(v2[3], W(255)), v2[4]>>))))
  IN XorW(XorW(v3[1], v3[2]), XorW(v3[3], v3[4]))

\* ---- MurmurHash3
F32(h) == LET a == Mul32(XsR(h, 16), <<\h0000, \h0000, \h85EB, \hCA6B>>) b == Mul32(XsR(a, 13), <<\h0000, \h0000, \hC2B2, \hAE35>>) IN XsR(b, 16)
F64(h) == LET a == MulW(XsR(h, 33), <<\hFF51, \hAFD7, \hED55, \h8CCD>>) b == MulW(XsR(a, 33), <<\hC4CE, \hB9FE, \h1A85, \hEC53>>) IN XsR(b, 33)
Mm32(q, seed) ==
  LET K(k) == Mul32(Rotl32(Mul32(k, <<\h0000, \h0000, \hCC9E, \h2D51>>), 15), <<\h0000, \h0000, \h1B87, \h3593>>)
      n == Len(q) \div 4
      F(h, i) == Add32(Mul32(Rotl32(XorW(h, K(Le32(q, 4 * i))), 13), W(5)), <<\h0000, \h0000, \hE654, \h6B64>>)
      h1 == Upto(F, seed, n)
      h2 == IF (Len(q) % 4) # 0 THEN XorW(h1, K(Tail32(q, 4 * n))) ELSE h1
  IN F32(XorW(h2, W(Len(q))))
Mm128a(q, seed) ==
  LET c1 == <<\h0000, \h0000, \h239B, \h961B>>  c2 == <<\h0000, \h0000, \hAB0E, \h9789>>  c3 == <<\h0000, \h0000, \h38B3, \h4AE5>>  c4 == <<\h0000, \h0000, \hA1E3, \h8B93>>
      K(k, a, r, b) == Mul32(Rotl32(Mul32(k, a), r), b)
      n == Len(q) \div 16
      M(h, g, k, r, c) == Add32(Mul32(Add32(Rotl32(XorW(h, k), r), g), W(5)), c)
      F(h, i) ==
        LET h1 == M(h[1], h[2], K(Le32(q, 16 * i), c1, 15, c2), 19, <<\h0000, \h0000, \h561C, \hCD1B>>)
            h2 == M(h[2], h[3], K(Le32(q, 16 * i + 4), c2, 16, c3), 17, <<\h0000, \h0000, \h0BCA, \hA747>>)
            h3 == M(h[3], h[4], K(Le32(q, 16 * i + 8), c3, 17, c4), 15, <<\h0000, \h0000, \h96CD, \h1C35>>)
            h4 == M(h[4], h1, K(Le32(q, 16 * i + 12), c4, 18, c1), 13, <<\h0000, \h0000, \h32AC, \h3B17>>)
        IN <<h1, h2, h3, h4>>
      s == Upto(F, <<seed, seed, seed, seed>>, n)
      t == 16 * n  z == W(Len(q))
      \* a missing word is zero and contributes nothing
      t1 == XorW(XorW(s[1], K(Tail32(q, t), c1, 15, c2)), z)
      t2 == XorW(XorW(s[2], K(Tail32(q, t + 4), c2, 16, c3)), z)
      t3 == XorW(XorW(s[3], K(Tail32(q, t + 8), c3, 17, c4)), z)
      t4 == XorW(XorW(s[4], K(Tail32(q, t + 12), c4, 18, c1)), z)
      Spread(x) == LET a == Add32(Add32(x[1], x[2]), Add32(x[3], x[4])) IN <<a, Add32(x[2], a), Add32(x[3], a), Add32(x[4], a)>>
      u == Spread(<<t1, t2, t3, t4>>)
      r == Spread(<<F32(u[1]), F32(u[2]), F32(u[3]), F32(u[4])>>)
  IN << Join(r[1], r[2]), Join(r[3], r[4]) >>
Mm128b(q, seed) ==
  LET c1 == <<\h87C3, \h7B91, \h1142, \h53D5>>  c2 == <<\h4CF5, \hAD43, \h2745, \h937F>>
      K(k, a, r, b) == MulW(Rotl(MulW(k, a), r), b)
      n == Len(q) \div 16
      F(h, i) ==
        LET h1 == AddW(MulW(AddW(Rotl(XorW(h[1], K(Le64(q, 16 * i), c1, 31, c2)), 27), h[2]), W(5)), <<\h0000, \h0000, \h52DC, \hE729>>)
            h2 == AddW(MulW(AddW(Rotl(XorW(h[2], K(Le64(q, 16 * i + 8), c2, 33, c1)), 31), h1), W(5)), <<\h0000, \h0000, \h3849, \h5AB5>>)
        IN <<h1, h2>>
      s == Upto(F, <<seed, seed>>, n)
      t == 16 * n  z == W(Len(q))
      t1 == XorW(XorW(s[1], K(Tail64(q, t), c1, 31, c2)), z)
      t2 == XorW(XorW(s[2], K(Tail64(q, t + 8), c2, 33, c1)), z)
      Spread(a, b) == <<AddW(a, b), AddW(AddW(a, b), b)>>
      u == Spread(t1, t2)
  IN Spread(F64(u[1]), F64(u[2]))

\* ---- SuperFastHash (Paul Hsieh); the last odd byte is signed
Sx(b) == IF b >= 128 THEN <<0, 0, 65535, 65280 + b>> ELSE W(b)
Hsieh(q, seed) ==
  LET n == Len(q) \div 4  t == 4 * n
      F(h, i) ==
        LET a == Add32(h, Le16(q, 4 * i))
            b == XorW(Shl32(Le16(q, 4 * i + 2), 11), a)
            c == XorW(Shl32(a, 16), b)
        IN Add32(c, Shr(c, 11))
      h1 == Upto(F, seed, n)
      h2 == CASE (Len(q) % 4) = 0 -> h1
              [] (Len(q) % 4) = 3 -> LET a == Add32(h1, Le16(q, t)) b == XorW(a, Shl32(a, 16)) c == XorW(b, Shl32(Sx(B(q, t + 2)), 18)) IN Add32(c, Shr(c, 11))
              [] (Len(q) % 4) = 2 -> LET a == Add32(h1, Le16(q, t)) b == XorW(a, Shl32(a, 11)) IN Add32(b, Shr(b, 17))
              [] (Len(q) % 4) = 1 -> LET a == Add32(h1, Sx(B(q, t))) b == XorW(a, Shl32(a, 10)) IN Add32(b, Shr(b, 1))
      X(h, k) == XorW(h, Shl32(h, k))
      A(h, k) == Add32(h, Shr(h, k))
  IN IF q = <<>> THEN Zero ELSE A(X(A(X(A(X(h2, 3), 5), 4), 17), 25), 6)

\* ---- FNV1A-Yorikke (Georgi Marinov)
Yorikke(q, seed) ==
  LET P0 == W(709607)
      Mx(h, v) == Mul32(XorW(h, v), P0)
      h0 == IF seed = Zero THEN <<\h0000, \h0000, \h811C, \h9DC5>> ELSE seed
      n == Len(q) \div 16
      R(i) == XorW(Rotl32(Le32(q, i), 5), Le32(q, i + 4))
      F(h, i) == << Mx(h[1], R(16 * i)), Mx(h[2], R(16 * i + 8)) >>
      a == Upto(F, <<h0, h0>>, n)
      o1 == 16 * n  m == Len(q) % 16
      b == IF m >= 8 THEN << Mx(a[1], Le32(q, o1)), Mx(a[2], Le32(q, o1 + 4)) >> ELSE a
      o2 == IF m >= 8 THEN o1 + 8 ELSE o1
      c == IF (m % 8) >= 4 THEN << Mx(b[1], Le16(q, o2)), Mx(b[2], Le16(q, o2 + 2)) >> ELSE b
      o3 == IF (m % 8) >= 4 THEN o2 + 4 ELSE o2
      d == IF (m % 4) >= 2 THEN << Mx(c[1], Le16(q, o3)), c[2] >> ELSE c
      e == IF (m % 2) = 1 THEN << Mx(d[1], W(q[Len(q)])), d[2] >> ELSE d
      h == Mx(e[1], Rotl32(e[2], 5))
  IN XsR(h, 16)

\* ---- CityHash 1.0.3
C0 == <<\hC3A5, \hC85C, \h97CB, \h3127>>
C1 == <<\hB492, \hB66F, \hBE98, \hF273>>
C2 == <<\h9AE1, \h6A3B, \h2F90, \h404F>>
C3 == <<\hC949, \hD7C7, \h509E, \h6557>>
Len16(u, v) ==
  LET m == <<\h9DDF, \hEA08, \hEB38, \h2D69>>
      a == XsR(MulW(XorW(u, v), m), 47)
      b == XsR(MulW(XorW(v, a), m), 47)
  IN MulW(b, m)
SMix(v) == XsR(v, 47)
City0(q) ==
  LET n == Len(q) z == W(n) IN
  IF n > 8 THEN LET a == Le64(q, 0) b == Le64(q, n - 8) IN XorW(Len16(a, Rotr(AddW(b, z), n)), b)
  ELSE IF n >= 4 THEN Len16(AddW(z, Shl(Le32(q, 0), 3)), Le32(q, n - 4))
  ELSE IF n > 0 THEN
    LET y == W(B(q, 0) + B(q, n \div 2) * 256) v == W(n + B(q, n - 1) * 4)
    IN MulW(SMix(XorW(MulW(y, C2), MulW(v, C3))), C2)
  ELSE C2
City17(q) ==
  LET n == Len(q)
      a == MulW(Le64(q, 0), C1) b == Le64(q, 8) c == MulW(Le64(q, n - 8), C2) d == MulW(Le64(q, n - 16), C0)
  IN Len16(AddW(AddW(Rotr(SubW(a, b), 43), Rotr(c, 30)), d), AddW(SubW(AddW(a, Rotr(XorW(b, C3), 20)), c), W(n)))
Weak6(w, x, y, z, a0, b0) ==
  LET a == AddW(a0, w)
      b == Rotr(AddW(AddW(b0, a), z), 21)
      d == AddW(AddW(a, x), y)
  IN << AddW(d, z), AddW(AddW(b, Rotr(d, 44)), a) >>
Weak(q, i, a, b) == Weak6(Le64(q, i), Le64(q, i + 8), Le64(q, i + 16), Le64(q, i + 24), a, b)
City33(q) ==
  LET n == Len(q)
      Half(p, z0, a0) == \* p: offset of the two middle words
        LET b == Rotr(AddW(a0, z0), 52) c == Rotr(a0, 37)
            a1 == AddW(a0, Le64(q, p)) d == AddW(c, Rotr(a1, 7))
            a2 == AddW(a1, Le64(q, p + 8))
        IN << AddW(a2, z0), AddW(AddW(b, Rotr(a2, 31)), d) >>
      v == Half(8, Le64(q, 24), AddW(Le64(q, 0), MulW(AddW(W(n), Le64(q, n - 16)), C0)))
      w == Half(n - 24, Le64(q, n - 8), AddW(Le64(q, 16), Le64(q, n - 32)))
      r == SMix(AddW(MulW(AddW(v[1], w[2]), C2), MulW(AddW(w[1], v[2]), C0)))
  IN MulW(SMix(AddW(MulW(r, C0), v[2])), C2)
\* the common loop step over 64 bytes from offset i; t = [x, y, z, v, w]
CityStep(q, i, t) ==
  LET x1 == MulW(Rotr(AddW(AddW(t.x, t.y), AddW(t.v[1], Le64(q, i + 8))), 37), C1)
      y1 == MulW(Rotr(AddW(AddW(t.y, t.v[2]), Le64(q, i + 48)), 42), C1)
      x2 == XorW(x1, t.w[2])
      y2 == AddW(y1, AddW(t.v[1], Le64(q, i + 40)))
      z1 == MulW(Rotr(AddW(t.z, t.w[1]), 33), C1)
      v1 == Weak(q, i, MulW(t.v[2], C1), AddW(x2, t.w[1]))
      w1 == Weak(q, i + 32, AddW(z1, t.w[2]), AddW(y2, Le64(q, i + 16)))
  IN [x |-> z1, y |-> y2, z |-> x2, v |-> v1, w |-> w1]
City64(q) ==
  LET n == Len(q) IN
  IF n <= 16 THEN City0(q) ELSE IF n <= 32 THEN City17(q) ELSE IF n <= 64 THEN City33(q) ELSE
  LET x == Le64(q, n - 40)
      y == AddW(Le64(q, n - 16), Le64(q, n - 56))
      z == Len16(AddW(Le64(q, n - 48), W(n)), Le64(q, n - 24))
      t0 == [x |-> AddW(MulW(x, C1), Le64(q, 0)), y |-> y, z |-> z, v |-> Weak(q, n - 64, W(n), z), w |-> Weak(q, n - 32, AddW(y, C1), x)]
      F(t, i) == CityStep(q, 64 * i, t)
      t == Upto(F, t0, (n - 1) \div 64)
  IN Len16(AddW(AddW(Len16(t.v[1], t.w[1]), MulW(SMix(t.y), C1)), t.z), AddW(Len16(t.v[2], t.w[2]), t.x))
City(q, seed) == IF seed = Zero THEN City64(q) ELSE Len16(SubW(City64(q), C2), seed)
CityMur(q, a0, b0) ==
  LET n == Len(q)
      Fin(a, b, c, d) == LET u == Len16(a, c) v == Len16(d, b) IN << XorW(u, v), Len16(v, u) >>
      H(x) == MulW(SMix(MulW(x, C1)), C1)
  IN IF n <= 16 THEN
       LET a == H(a0) c == AddW(MulW(b0, C1), City0(q)) IN Fin(a, b0, c, SMix(AddW(a, IF n >= 8 THEN Le64(q, 0) ELSE c)))
     ELSE
       LET c == Len16(AddW(Le64(q, n - 8), C1), a0)
           d == Len16(AddW(b0, W(n)), AddW(c, Le64(q, n - 16)))
           F(t, i) ==
             LET a == MulW(XorW(t[1], H(Le64(q, 16 * i))), C1) b == XorW(t[2], a)
                 e == MulW(XorW(t[3], H(Le64(q, 16 * i + 8))), C1)
             IN <<a, b, e, XorW(t[4], e)>>
           t == Upto(F, <<AddW(a0, d), b0, c, d>>, (n - 1) \div 16)
       IN Fin(t[1], t[2], t[3], t[4])
City128S(q, s0, s1) ==
  IF Len(q) < 128 THEN CityMur(q, s0, s1) ELSE
  LET n == Len(q)
      z == MulW(W(n), C1)
      v1 == AddW(MulW(Rotr(XorW(s1, C1), 49), C1), Le64(q, 0))
      t0 == [x |-> s0, y |-> s1, z |-> z,
             v |-> << v1, AddW(MulW(Rotr(v1, 42), C1), Le64(q, 8)) >>,
             w |-> << AddW(MulW(Rotr(AddW(s1, z), 35), C1), s0), MulW(Rotr(AddW(s0, Le64(q, 88)), 53), C1) >>]
      F(t, i) == CityStep(q, 64 * i, t)
      k == 2 * (n \div 128)
      t1 == Upto(F, t0, k)
      t2 == [t1 EXCEPT !.x = AddW(t1.x, MulW(Rotr(AddW(t1.v[1], t1.z), 49), C0)), !.z = AddW(t1.z, MulW(Rotr(t1.w[1], 37), C0))]
      G(t, i) ==
        LET o == n - 32 * (i + 1)
            y == AddW(MulW(Rotr(AddW(t.x, t.y), 42), C0), t.v[2])
            wa == AddW(t.w[1], Le64(q, o + 16))
            x == AddW(MulW(t.x, C0), wa)
            zz == AddW(AddW(t.z, t.w[2]), Le64(q, o))
            wb == AddW(t.w[2], t.v[1])
        IN [x |-> x, y |-> y, z |-> zz, v |-> Weak(q, o, AddW(t.v[1], zz), t.v[2]), w |-> <<wa, wb>>]
      t == Upto(G, t2, ((n % 128) + 31) \div 32)
      x == Len16(t.x, t.v[1])
      y == Len16(AddW(t.y, t.z), t.w[1])
  IN << AddW(Len16(AddW(x, t.v[2]), t.w[2]), y), Len16(AddW(x, t.w[2]), AddW(y, t.v[2])) >>
City128(q, s0, s1) ==
  IF s0 # Zero \/ s1 # Zero THEN City128S(q, s0, s1)
  ELSE LET n == Len(q) IN
    IF n >= 16 THEN City128S(SubSeq(q, 17, n), XorW(Le64(q, 0), C3), Le64(q, 8))
    ELSE IF n >= 8 THEN City128S(<<>>, XorW(Le64(q, 0), MulW(W(n), C0)), XorW(Le64(q, n - 8), C1))
    ELSE City128S(q, C0, C1)

\* ---- xxHash
X1 == W(0)
Q1 == <<\h0000, \h0000, \h9E37, \h79B1>>
Q2 == <<\h0000, \h0000, \h85EB, \hCA77>>
Q3 == <<\h0000, \h0000, \hC2B2, \hAE3D>>
Q4 == <<\h0000, \h0000, \h27D4, \hEB2F>>
Q5 == <<\h0000, \h0000, \h1656, \h67B1>>
R1 == <<\h9E37, \h79B1, \h85EB, \hCA87>>
R2 == <<\hC2B2, \hAE3D, \h27D4, \hEB4F>>
R3 == <<\h1656, \h67B1, \h9E37, \h79F9>>
R4 == <<\h85EB, \hCA77, \hC2B2, \hAE63>>
R5 == <<\h27D4, \hEB2F, \h1656, \h67C5>>
Xx32(q, seed) ==
  LET n == Len(q)
      Rd(a, v) == Mul32(Rotl32(Add32(a, Mul32(v, Q2)), 13), Q1)
      s0 == << Add32(Add32(seed, Q1), Q2), Add32(seed, Q2), seed, Sub32(seed, Q1) >>
      F(s, i) == << Rd(s[1], Le32(q, 16 * i)), Rd(s[2], Le32(q, 16 * i + 4)), Rd(s[3], Le32(q, 16 * i + 8)), Rd(s[4], Le32(q, 16 * i + 12)) >>
      k == n \div 16
      s == Upto(F, s0, k)
      h0 == IF n >= 16 THEN Add32(Add32(Rotl32(s[1], 1), Rotl32(s[2], 7)), Add32(Rotl32(s[3], 12), Rotl32(s[4], 18))) ELSE Add32(seed, Q5)
      h1 == Add32(h0, W(n))
      G(h, i) == Mul32(Rotl32(Add32(h, Mul32(Le32(q, 16 * k + 4 * i), Q3)), 17), Q4)
      j == (n % 16) \div 4
      h2 == Upto(G, h1, j)
      E(h, i) == Mul32(Rotl32(Add32(h, Mul32(W(B(q, 16 * k + 4 * j + i)), Q5)), 11), Q1)
      h3 == Upto(E, h2, n % 4)
  IN XsR(Mul32(XsR(Mul32(XsR(h3, 15), Q2), 13), Q3), 16)
Xx64(q, seed) ==
  LET n == Len(q)
      Rd(a, v) == MulW(Rotl(AddW(a, MulW(v, R2)), 31), R1)
      Mg(a, v) == AddW(MulW(XorW(a, Rd(Zero, v)), R1), R4)
      s0 == << AddW(AddW(seed, R1), R2), AddW(seed, R2), seed, SubW(seed, R1) >>
      F(s, i) == << Rd(s[1], Le64(q, 32 * i)), Rd(s[2], Le64(q, 32 * i + 8)), Rd(s[3], Le64(q, 32 * i + 16)), Rd(s[4], Le64(q, 32 * i + 24)) >>
      k == n \div 32
      s == Upto(F, s0, k)
      h0 == IF n >= 32 THEN Mg(Mg(Mg(Mg(AddW(AddW(Rotl(s[1], 1), Rotl(s[2], 7)), AddW(Rotl(s[3], 12), Rotl(s[4], 18))), s[1]), s[2]), s[3]), s[4])
            ELSE AddW(seed, R5)
      h1 == AddW(h0, W(n))
      G(h, i) == AddW(MulW(Rotl(XorW(h, Rd(Zero, Le64(q, 32 * k + 8 * i))), 27), R1), R4)
      j == (n % 32) \div 8
      o == 32 * k + 8 * j
      h2 == Upto(G, h1, j)
      h3 == IF (n % 8) >= 4 THEN AddW(MulW(Rotl(XorW(h2, MulW(Le32(q, o), R1)), 23), R2), R3) ELSE h2
      p == IF (n % 8) >= 4 THEN o + 4 ELSE o
      E(h, i) == MulW(Rotl(XorW(h, MulW(W(B(q, p + i)), R5)), 11), R1)
      h4 == Upto(E, h3, n % 4)
  IN XsR(MulW(XsR(MulW(XsR(h4, 33), R2), 29), R3), 32)

\* ---- all of them: a list of words from the bytes and a two-word seed
Hash(f, q, a, b) ==
  CASE f = "fnv32" -> <<Fnv32(q)>>
    [] f = "fnv64" -> <<Fnv64(q)>>
    [] f = "fast64" -> <<Fast64(q, a)>>
    [] f = "fast32" -> <<Fast32(q, Low32(a))>>
    [] f = "sip" -> <<Sip(q, a, b)>>
    [] f = "mm32" -> <<Mm32(q, Low32(a))>>
    [] f = "mm128a" -> Mm128a(q, Low32(a))
    [] f = "mm128b" -> Mm128b(q, Low32(a))
    [] f = "hsieh" -> <<Hsieh(q, Low32(a))>>
    [] f = "yorikke" -> <<Yorikke(q, Low32(a))>>
    [] f = "city" -> <<City(q, a)>>
    [] f = "city128" -> City128(q, a, b)
    [] f = "xx32" -> <<Xx32(q, Low32(a))>>
    [] f = "xx64" -> <<Xx64(q, a)>>
Bytes32(x) == << x[3] \div 256, x[3] % 256, x[4] \div 256, x[4] % 256 >>
Bytes64(x) == << x[1] \div 256, x[1] % 256, x[2] \div 256, x[2] % 256 >> \o Bytes32(x)

\* state: the stream in progress (kind "" when there is none)
InitState(c) == [k |-> c.k, on |-> FALSE, a |-> Zero, b |-> Zero, q |-> <<>>]
Cfgs == { [k |-> k] : k \in Kinds }
Ok(s, e) ==
  CASE e.op = "hash" -> e.o = Hash(e.f, e.d, e.a, e.b) /\ e.same = 1
    [] e.op = "canon" -> /\ e.c32 = Bytes32(Low32(e.a)) /\ e.c64 = Bytes64(e.a) /\ e.b32 = Low32(e.a) /\ e.b64 = e.a
    [] e.op = "init" -> e.r = 0
    [] e.op = "upd" -> e.r = 0
    [] e.op = "fin" -> e.o = Hash(s.k, s.q, s.a, s.b)
After(s, e) ==
  CASE e.op = "init" -> [s EXCEPT !.on = TRUE, !.a = e.a, !.b = e.b, !.q = <<>>]
    [] e.op = "upd" -> [s EXCEPT !.q = @ \o e.d]
    [] OTHER -> s
Pat(n, k) == [i \in 1..n |-> (i * (37 + 2 * k) + k * 91 + (i \div 7) * 13) % 256]
Events(s) ==
  IF s.k = "none"
  THEN { [op |-> "hash", f |-> f, d |-> Pat(n, 1), a |-> a, b |-> a, al |-> n % 8] : f \in Fns, n \in Lens, a \in Seeds }
       \cup { [op |-> "canon", a |-> a] : a \in Seeds }
  ELSE { [op |-> "init", a |-> a, b |-> NotW(a)] : a \in Seeds }
       \cup (IF s.on THEN { [op |-> "upd", d |-> Pat(n, Len(s.q)), al |-> (n + Len(s.q)) % 8] : n \in { x \in Chunks : x + Len(s.q) <= MaxData } } \cup { [op |-> "fin"] } ELSE {})
Abs(s) == [s EXCEPT !.a = Zero, !.b = Zero]
Good(s) == IsWord(s.a) /\ (~ s.on => s.q = <<>>)
===============================================================================
