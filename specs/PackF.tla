--------------------------------- MODULE PackF --------------------------------
(* Template driven packing and unpacking.  A template is a list of characters;  *)
(* arguments are a flat list of tagged entries:                                  *)
(*   0 w b1..bw       one integer (bytes most significant first)                 *)
(*   1 w n b1..b(w*n) array of n integers        2 n c1..cn  string (n = -1: null)*)
(*   3 n              count for '*'              4 w b1..bw  float or double      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Tmpls, Caps, Ins
Space == {32} \cup 9..13
Digits == 48..57
Star == 42
Width(c) == CASE c \in {98, 66} -> 1 [] c \in {115, 83} -> 2 [] c \in {105, 73, 102} -> 4 [] c \in {108, 76, 68, 100} -> 8 [] OTHER -> 0
IsNum(c) == Width(c) > 0
IsFlt(c) == c \in {102, 68, 100}
IsStr(c) == c \in {122, 90}
IsPad(c) == c = 120
Big == 1000000
Sub(q, a, n) == IF n = 0 THEN <<>> ELSE SubSeq(q, a, a + n - 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Count(_, _, _)
Count(f, i, v) == IF i > Len(f) \/ f[i] \notin Digits THEN <<v, i>> ELSE Count(f, i + 1, IF v >= Big THEN Big ELSE v * 10 + (f[i] - 48))
\* parse a template into descriptors [c, n, v]: n = count (-1: none), v = preceded by '*'; <<"bad", prefix>> when malformed
RECURSIVE Desc(_, _, _, _)
Desc(f, i, v, ds) ==
  IF i > Len(f) THEN (IF v THEN [ok |-> FALSE, ds |-> ds] ELSE [ok |-> TRUE, ds |-> ds])
  ELSE IF f[i] \in Space THEN Desc(f, i + 1, v, ds)
  ELSE IF f[i] = Star THEN (IF v THEN [ok |-> FALSE, ds |-> ds] ELSE Desc(f, i + 1, TRUE, Append(ds, [c |-> Star, n |-> -1, v |-> FALSE])))
  ELSE LET k == IF f[i] \in Digits THEN Count(f, i, 0) ELSE <<-1, i>>
           c == IF k[2] > Len(f) THEN 0 ELSE f[k[2]]
       IN IF (k[1] > 0 /\ v) \/ ~ (IsNum(c) \/ IsStr(c) \/ IsPad(c)) THEN [ok |-> FALSE, ds |-> ds]
          ELSE Desc(f, k[2] + 1, FALSE, Append(ds, [c |-> c, n |-> k[1], v |-> v]))
BE(f) == f # <<>> /\ f[1] = 62
Parse(f) == Desc(f, IF f # <<>> /\ f[1] \in {60, 62} THEN 2 ELSE 1, FALSE, <<>>)
Order(be, b) == IF be THEN b ELSE Rev(b)
\* order the bytes of each element of width w
Each(be, w, b) == IF be \/ w = 1 THEN b ELSE [i \in 1..Len(b) |-> b[2 * w * ((i - 1) \div w) + w + 1 - i]]
B32(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Fail(o) == [st |-> -1, o |-> o]
\* pack descriptors ds[d..] with arguments a[k..]; vn = pending count; cap = capacity; o = bytes so far
RECURSIVE PackD(_, _, _, _, _, _, _)
PackD(ds, d, be, a, k, vn, st) ==
  IF d > Len(ds) THEN [st |-> 0, o |-> st.o]
  ELSE LET x == ds[d]
           room == st.cap - Len(st.o)
           n == IF x.v THEN vn ELSE IF x.n < 1 THEN 1 ELSE x.n
           w == Width(x.c)
           Put(b, k2, v2) == PackD(ds, d + 1, be, a, k2, v2, [st EXCEPT !.o = @ \o b])
       IN IF x.c = Star THEN (IF room < 4 THEN Fail(st.o) ELSE Put(Order(be, B32(a[k + 1])), k + 2, a[k + 1]))
          ELSE IF IsPad(x.c) THEN (IF n > room THEN Fail(st.o) ELSE Put(Zeros(n), k, 0))
          ELSE IF IsStr(x.c) THEN
            LET l == IF a[k + 1] < 0 THEN 0 ELSE a[k + 1]
                m == IF x.v THEN vn ELSE IF x.n < 1 THEN l + 1 ELSE x.n
                s == Sub(a, k + 2, IF l < m THEN l ELSE m)
            IN IF m > room THEN Fail(st.o) ELSE Put(s \o Zeros(m - Len(s)), k + 2 + l, 0)
          ELSE IF n > room \div w THEN Fail(st.o)
          ELSE IF ~ x.v /\ n = 1 THEN Put(Order(be, Sub(a, k + 2, w)), k + 2 + w, 0)
          ELSE Put(Each(be, w, Sub(a, k + 3, n * w)), k + 3 + a[k + 2] * w, 0)
Pack(f, cap, a) == LET p == Parse(f)
                       r == PackD(p.ds, 1, BE(f), a, 1, 0, [cap |-> cap, o |-> <<>>])
                   IN IF p.ok THEN r ELSE Fail(<<>>)
\* unpack: results as a flat list; numbers as bytes in host (little-endian) order
\*   0 n b..  plain storage   1 n c.. string   2 n b.. allocated array   3 b1..b4 count; n = -1: left alone
RECURSIVE UnpackD(_, _, _, _, _, _, _)
U32(b) == IF b[1] # 0 \/ b[2] >= 16 THEN Big ELSE b[2] * 65536 + b[3] * 256 + b[4]
FindZ(b, i) == LET z == SelectInSubSeq(b, i, Len(b), LAMBDA c : c = 0) IN z
CStr(q) == LET z == FindZ(q, 1) IN IF z = 0 THEN q ELSE SubSeq(q, 1, z - 1)
UnpackD(ds, d, be, b, i, vn, v) ==
  IF d > Len(ds) THEN [st |-> i - 1, v |-> v]
  ELSE LET x == ds[d]
           room == Len(b) - i + 1
           n == IF x.v THEN vn ELSE IF x.n < 1 THEN 1 ELSE x.n
           w == Width(x.c)
           F0 == [st |-> -1, v |-> <<>>]
           Got(k, y, v2) == UnpackD(ds, d + 1, be, b, i + k, v2, v \o y)
           z == FindZ(b, i)
       IN IF x.c = Star THEN (IF room < 4 THEN F0 ELSE LET q == Order(be, Sub(b, i, 4)) IN Got(4, <<3>> \o Rev(q), U32(q)))
          ELSE IF IsPad(x.c) THEN (IF n > room THEN F0 ELSE Got(n, <<>>, 0))
          ELSE IF IsStr(x.c) THEN
            IF x.v /\ vn = 0 THEN Got(0, <<1, -1>>, 0)
            ELSE IF ~ x.v /\ x.n < 1 THEN (IF z = 0 THEN F0 ELSE Got(z - i + 1, <<1, z - i>> \o Sub(b, i, z - i), 0))
            ELSE IF n > room THEN F0 ELSE LET q == CStr(Sub(b, i, n)) IN Got(n, <<1, Len(q)>> \o q, 0)
          ELSE IF n > room \div w THEN F0
          ELSE LET q == Each(~ be, w, Sub(b, i, n * w))

               IN IF x.v THEN Got(n * w, (IF n = 0 THEN <<2, -1>> ELSE <<2, n * w>> \o Each(~ be, w, Sub(b, i, n * w))), 0)
                  ELSE Got(n * w, <<0, n * w>> \o q, 0)
Unpack(f, b) == LET p == Parse(f) IN IF p.ok THEN UnpackD(p.ds, 1, BE(f), b, 1, 0, <<>>) ELSE [st |-> -1, v |-> <<>>]
\* how many of the results are memory taken for the caller
RECURSIVE Takes(_, _, _)
Takes(v, i, n) == IF i > Len(v) THEN n ELSE IF v[i] = 3 THEN Takes(v, i + 5, n)
                  ELSE Takes(v, i + 2 + (IF v[i + 1] < 0 THEN 0 ELSE v[i + 1]), n + (IF v[i] \in {1, 2} /\ v[i + 1] >= 0 THEN 1 ELSE 0))
Fill == 165
Ok(s, e) ==
  CASE e.op = "pack" -> LET r == Pack(e.fmt, e.cap, e.a) IN
         IF r.st < 0 THEN e.r < 0
         ELSE e.r = Len(r.o) /\ e.o = r.o \o [i \in 1..(e.cap - Len(r.o)) |-> Fill]
    [] e.op = "unpack" -> LET r == Unpack(e.fmt, e.b) IN e.live = 0 /\ (IF r.st < 0 THEN e.r < 0 ELSE e.r = r.st /\ e.v = r.v)
    \* memory running out at the k-th request for it: reported, and everything taken is in the caller's hands
    [] e.op = "unpackm" -> LET r == Unpack(e.fmt, e.b) IN e.live = 0 /\ (IF r.st < 0 \/ e.k < Takes(r.v, 1, 0) THEN e.r < 0 ELSE e.r = r.st /\ e.v = r.v)
\* what unpacking gives for packed arguments
RECURSIVE Vals(_, _, _, _, _)
Vals(ds, d, a, k, vn) ==
  IF d > Len(ds) THEN <<>>
  ELSE LET x == ds[d]
           w == Width(x.c)
           n == IF x.v THEN vn ELSE IF x.n < 1 THEN 1 ELSE x.n
           l == IF a[k + 1] < 0 THEN 0 ELSE a[k + 1]
           m == IF x.v THEN vn ELSE IF x.n < 1 \/ l < x.n THEN l ELSE x.n
       IN IF x.c = Star THEN <<3>> \o Rev(B32(a[k + 1])) \o Vals(ds, d + 1, a, k + 2, a[k + 1])
          ELSE IF IsPad(x.c) THEN Vals(ds, d + 1, a, k, 0)
          ELSE IF IsStr(x.c) THEN
             LET q == Sub(a, k + 2, IF l < m THEN l ELSE m) IN
             (IF x.v /\ vn = 0 THEN <<1, -1>> ELSE <<1, Len(q)>> \o q) \o Vals(ds, d + 1, a, k + 2 + l, 0)
          ELSE IF ~ x.v /\ n = 1 THEN <<0, w>> \o Rev(Sub(a, k + 2, w)) \o Vals(ds, d + 1, a, k + 2 + w, 0)
          ELSE (IF n = 0 THEN <<2, -1>> ELSE <<IF x.v THEN 2 ELSE 0, n * w>> \o Each(FALSE, w, Sub(a, k + 3, n * w))) \o Vals(ds, d + 1, a, k + 3 + a[k + 2] * w, 0)
\* arguments that suit a template; sd varies the values
RECURSIVE Args(_, _, _, _)
Bytes(w, sd) == [i \in 1..w |-> (sd * 89 + i * 37 + w) % 256]
ArgsFor(x, sd, vn) ==
  LET w == Width(x.c) n == IF x.v THEN vn ELSE IF x.n < 1 THEN 1 ELSE x.n IN
  IF x.c = Star THEN <<3, vn>>
  ELSE IF IsPad(x.c) THEN <<>>
  ELSE IF IsStr(x.c) THEN <<2, sd % 4>> \o [i \in 1..(sd % 4) |-> 97 + ((i + sd) % 26)]
  ELSE IF ~ x.v /\ n = 1 THEN (IF IsFlt(x.c) THEN (IF w = 4 THEN <<4, 4, 63, 128 + (sd % 16), sd % 256, 7>> ELSE <<4, 8, 64, 9 + (sd % 4), 33, 251, 84, 68, 45, sd % 256>>) ELSE <<0, w>> \o Bytes(w, sd))
  ELSE IF n > 40 THEN <<1, w, 0>>
  ELSE <<1, w, n>> \o Bytes(n * w, sd)
Args(ds, d, sd, vn) == IF d > Len(ds) THEN <<>> ELSE ArgsFor(ds[d], sd + d, vn) \o Args(ds, d + 1, sd, IF ds[d].c = Star THEN vn ELSE (vn + 1) % 3)
Events(s) == { [op |-> "pack", fmt |-> f, cap |-> n, a |-> Args(Parse(f).ds, 1, Len(f) + n, n % 3)] : f \in Tmpls, n \in Caps }
             \cup { [op |-> "unpack", fmt |-> f, b |-> q] : f \in Tmpls, q \in Ins }
Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == 0
Abs(s) == s
\* theorem over the explored instances: unpacking what was packed gives the arguments back
RoundTrip == \A f \in Tmpls, sd \in 0..5, vn \in 0..2 :
   LET p == Parse(f) a == Args(p.ds, 1, sd, vn) r == Pack(f, 100, a)
   IN p.ok => (r.st = 0 => Unpack(f, r.o) = [st |-> Len(r.o), v |-> Vals(p.ds, 1, a, 1, 0)])
Good(s) == TRUE
===============================================================================
