--------------------------------- MODULE NumF ---------------------------------
(* Number and size parsing.  64-bit values are four 16-bit limbs, most          *)
(* significant first; arithmetic reports a carry out of the top limb.           *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Alpha, MaxLen0, Bases, Ops
B16 == 65536
Zero == <<0, 0, 0, 0>>
EINVAL == -22
ERANGE == -34
Space == {32} \cup 9..13
Max2(a, b) == IF a > b THEN a ELSE b
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
\* x * m + c with 0 <= m <= 1024: <<carry, limbs>>
MulAdd(x, m, c) ==
  LET a4 == x[4] * m + c
      a3 == x[3] * m + (a4 \div B16)
      a2 == x[2] * m + (a3 \div B16)
      a1 == x[1] * m + (a2 \div B16)
  IN <<a1 \div B16, << (a1 % B16), (a2 % B16), (a3 % B16), (a4 % B16) >> >>
Neg(x) == LET y == [i \in 1..4 |-> 65535 - x[i]] IN MulAdd(y, 1, 1)[2]
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE 99
SkipWs(q, i) == LET k == SelectInSubSeq(q, i, Len(q), LAMBDA c : c \notin Space) IN IF i > Len(q) \/ k = 0 THEN Max2(i, Len(q) + 1) ELSE k
\* digits from position i: status 0 / EINVAL / ERANGE, value, number of digits, position of the first char not used
Digits(q, i, b, v0, n0) ==
  LET k == IF i > Len(q) THEN 0 ELSE SelectInSubSeq(q, i, Len(q), LAMBDA c : Digit(c) >= b)
      end == IF k = 0 THEN Max2(i, Len(q) + 1) ELSE k
      z == FoldLeft(LAMBDA a, c : IF a.over THEN a
                                  ELSE LET p == MulAdd(a.v, b, Digit(c)) IN IF p[1] # 0 THEN [a EXCEPT !.over = TRUE] ELSE [a EXCEPT !.v = p[2], !.n = @ + 1],
                    [over |-> FALSE, v |-> v0, n |-> n0], SubSeq(q, i, end - 1))
  IN IF z.over THEN [st |-> ERANGE, v |-> z.v, n |-> z.n, pos |-> i + (z.n - n0)]
     ELSE [st |-> IF k # 0 /\ Digit(q[k]) = 99 THEN EINVAL ELSE 0, v |-> z.v, n |-> z.n, pos |-> end]
\* result of parsing text q in base b
Parse(q, b) ==
  LET i0 == SkipWs(q, 1)
      neg == At(q, i0) = 45
      i1 == IF At(q, i0) \in {43, 45} THEN i0 + 1 ELSE i0
      hex == b \in {0, 16} /\ At(q, i1) = 48 /\ At(q, i1 + 1) \in {88, 120}
      i2 == IF hex THEN i1 + 2 ELSE i1
      bb == IF hex THEN 16 ELSE IF b = 0 THEN (IF At(q, i1) = 48 THEN 8 ELSE 10) ELSE b
      d == Digits(q, i2, bb, Zero, 0)
  IN [d EXCEPT !.v = IF neg THEN Neg(d.v) ELSE d.v] @@ [neg |-> neg]
BadBase(b) == b < 0 \/ b = 1 \/ b > 36

\* suffix of a size: exponent of two to shift by, or -1 (unknown), or -2 (not specified)
After0(q, i) == i > Len(q) \/ q[i] \in Space
Unit(c) == CASE c \in {75, 107} -> 10 [] c = 77 -> 20 [] c = 71 -> 30 [] c = 84 -> 40 [] c = 80 -> 50 [] c = 69 -> 60 [] OTHER -> -1
Suffix(q, i) ==
  IF i > Len(q) THEN 0
  ELSE IF q[i] = 66 THEN (IF After0(q, i + 1) THEN 0 ELSE -1)
  ELSE IF q[i] = 98 THEN -2
  ELSE IF Unit(q[i]) = -1 THEN -1
  ELSE IF At(q, i + 1) = 98 THEN (IF After0(q, i + 2) THEN Unit(q[i]) - 3 ELSE -1)
  ELSE IF At(q, i + 1) = 66 THEN (IF After0(q, i + 2) THEN Unit(q[i]) ELSE -1)
  ELSE IF After0(q, i + 1) THEN Unit(q[i]) ELSE -1
RECURSIVE Shift(_, _)
Shift(v, k) == IF k = 0 THEN <<0, v>>
               ELSE LET m == IF k >= 10 THEN 1024 ELSE 2^k
                        p == MulAdd(v, m, 0)
                    IN IF p[1] # 0 THEN p ELSE Shift(p[2], IF k >= 10 THEN k - 10 ELSE 0)
\* required outcome of a size parse: [st, v]; st = 1: not specified
Size(q, b) ==
  LET p == Parse(q, b)
      x == Suffix(q, p.pos)
      y == Shift(p.v, x)
  IN IF p.st # 0 THEN [st |-> p.st, v |-> Zero]
     ELSE IF x = -1 THEN [st |-> EINVAL, v |-> Zero]
     ELSE IF x = -2 THEN [st |-> 1, v |-> Zero]
     ELSE IF y[1] # 0 THEN [st |-> ERANGE, v |-> Zero]
     ELSE [st |-> 0, v |-> y[2]]

\* does the 64-bit value fit a type of `bits' bits (signed: sg), given the sign of the text
Fits(v, bits, sg, neg) ==
  LET lo == IF bits = 64 THEN v ELSE IF bits = 32 THEN <<0, 0, v[3], v[4]>> ELSE IF bits = 16 THEN <<0, 0, 0, v[4]>> ELSE <<0, 0, 0, v[4] % 256>>
      top == IF bits = 64 THEN v[1] >= 32768 ELSE IF bits = 32 THEN v[3] >= 32768 ELSE IF bits = 16 THEN v[4] >= 32768 ELSE (v[4] % 256) >= 128
      sext == IF ~ top THEN lo ELSE IF bits = 64 THEN v ELSE IF bits = 32 THEN <<65535, 65535, v[3], v[4]>> ELSE IF bits = 16 THEN <<65535, 65535, 65535, v[4]>> ELSE <<65535, 65535, 65535, 65280 + (v[4] % 256)>>
  IN IF sg = 0 THEN lo = v ELSE sext = v /\ (v = Zero \/ neg = top)

Ok(s, e) ==
  LET p == Parse(e.s, e.b) IN
  CASE e.op = "u64" ->
         IF BadBase(e.b) THEN e.r = EINVAL
         ELSE IF p.st # 0 THEN e.r = p.st
         ELSE \/ e.r = 0 /\ e.v = p.v /\ e.end = p.pos - 1
              \/ p.n = 0 /\ (e.r < 0 \/ (e.r = 0 /\ e.v = Zero))
    [] e.op = "size" ->
         IF BadBase(e.b) THEN e.r < 0
         ELSE LET z == Size(e.s, e.b) IN
              \/ z.st = 1
              \/ z.st < 0 /\ e.r < 0
              \/ z.st = 0 /\ e.r = 0 /\ e.v = z.v
              \/ p.n = 0 /\ e.r < 0
    [] e.op = "int" ->      \* typed parse: bits, sg (signed)
         IF BadBase(e.b) THEN e.r = 0
         ELSE LET z == Size(e.s, e.b) IN
              \/ z.st = 1
              \/ z.st < 0 /\ e.r = 0
              \/ z.st = 0 /\ e.r = 1 /\ e.v = z.v /\ Fits(z.v, e.bits, e.sg, p.neg)
              \/ z.st = 0 /\ e.r = 0 /\ (~ Fits(z.v, e.bits, e.sg, p.neg) \/ p.n = 0)

Strs == UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }
Events(s) ==
  { [op |-> "u64", s |-> q, b |-> b] : q \in IF "u64" \in Ops THEN Strs ELSE {}, b \in Bases }
  \cup { [op |-> "size", s |-> q, b |-> b] : q \in IF "size" \in Ops THEN Strs ELSE {}, b \in Bases }
Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
===============================================================================
