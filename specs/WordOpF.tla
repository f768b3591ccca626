------------------------------- MODULE WordOpF -------------------------------
(* Byte order, encoders, alignment, powers of two, bounded indexes and time units.       *)
EXTENDS Word, FiniteSets
CONSTANTS Ops, Words, Shifts
B(x, i) == IF i % 2 = 0 THEN x[4 - (i \div 2)] % 256 ELSE x[4 - (i \div 2)] \div 256        \* byte i, 0: lowest
FromB(f) == <<f[7] * 256 + f[6], f[5] * 256 + f[4], f[3] * 256 + f[2], f[1] * 256 + f[0]>>
LowB(x, n) == FromB([i \in 0..7 |-> IF i < n THEN B(x, i) ELSE 0])
Swap(x, n) == FromB([i \in 0..7 |-> IF i < n THEN B(x, n - 1 - i) ELSE 0])
\* macros: <<bytes, order of the other side>>
Mac == << <<2, "B">>, <<4, "B">>, <<8, "B">>, <<2, "B">>, <<4, "B">>, <<8, "B">>, <<2, "L">>, <<4, "L">>, <<8, "L">>, <<2, "L">>, <<4, "L">>, <<8, "L">>,
          <<8, "B">>, <<4, "B">>, <<2, "B">>, <<8, "B">>, <<4, "B">>, <<2, "B">>, <<8, "B">>, <<8, "B">> >>
Conv(h, m, x) == IF Mac[m][2] = h THEN LowB(x, Mac[m][1]) ELSE Swap(x, Mac[m][1])
Konst == << <<258, 772, 1286, 1800>>, <<0, 0, 0, 255>>, <<65280, 0, 0, 1>>, <<65279, 56027, 35243, 3876>> >>
Lt(x, y) == \E i \in 1..4 : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
P2(k) == Shl(One, k)
IsP2(x) == \E k \in 0..63 : x = P2(k)
Mult(x, k) == LET q == Shl(Shr(x, k), k) IN q = x
Trunc(b, x) == IF b = 4 THEN Low32(x) ELSE x
Nano == <<0, 0, 15258, 51712>>            \* 10^9
\* nanoseconds, then microseconds
Unit == << Nano, MulW(Nano, W(60)), MulW(Nano, W(3600)), W(1000000), W(1000), One, W(1000000), W(1000), One >>
\* encoders: b bytes, 9: a double with the bit pattern x
Size(b) == IF b = 9 THEN 8 ELSE b
Enc(h, b, x) == [i \in 1..Size(b) |-> B(x, IF h = "L" THEN i - 1 ELSE Size(b) - i)]
Dec(h, b, d) == FromB([i \in 0..7 |-> IF i < Size(b) THEN d[IF h = "L" THEN i + 1 ELSE Size(b) - i] ELSE 0])
NotNan(x) == ~((x[1] \div 16) % 2048 = 2047)             \* quiet and signalling ones may change on the way through a register
Ok(s, e) ==
  LET x == IF "x" \in DOMAIN e THEN e.x ELSE Zero IN
  CASE e.op = "conv" -> e.r = Conv(e.h, e.m, x)
    [] e.op = "enc" -> e.out = Enc(e.h, e.b, x) /\ e.n = Len(e.out) /\ e.guard = 0       \* n: how far the position moved
    [] e.op = "dec" -> e.r = Dec(e.h, e.b, e.d) /\ e.guard = 0
    [] e.op = "konst" -> e.r = Conv("L", e.m, Konst[e.k])
    [] e.op = "up" -> Mult(e.r, e.k) /\ ~Lt(e.r, x) /\ Lt(SubW(e.r, x), P2(e.k))
    [] e.op = "down" -> Mult(e.r, e.k) /\ ~Lt(x, e.r) /\ Lt(SubW(x, e.r), P2(e.k))
    [] e.op = "is" -> e.r = (IF Mult(x, e.k) THEN One ELSE Zero)
    [] e.op = "pow2" -> e.r = (IF IsP2(x) THEN One ELSE Zero)
    [] e.op = "next" -> IsP2(e.r) /\ ~Lt(e.r, x) /\ Lt(Shr(e.r, 1), x)
    [] e.op = "index" -> e.r = (IF Lt(x, e.y) THEN x ELSE Zero)
    [] e.op = "unit" -> e.r = MulW(x, Unit[e.m])
    [] e.op = "clock" -> e.r = AddW(MulW(x, IF e.m = 3 THEN Nano ELSE W(1000000)), e.y)      \* seconds and the rest, as the clock tells them
Top == P2(63)
Max32 == <<0, 0, 65535, 65535>>
\* b: size of the operands; v: 0 the macro, 1 the C++ template
In(b, x) == b = 8 \/ ~Lt(Max32, x)
Fits(b, x, k) == In(b, x) /\ k < 8 * b /\ (Mult(x, k) \/ LET y == Shl(AddW(Shr(x, k), One), k) IN y # Zero /\ In(b, y))
Evs(s) ==
  (IF "enc" \in Ops THEN { [op |-> "enc", h |-> h, b |-> b, x |-> x] : h \in {"L", "B"}, b \in {2, 4, 8, 9}, x \in Words }
                         \cup { [op |-> "dec", h |-> h, b |-> b, d |-> Enc(g, b, x)] : h \in {"L", "B"}, g \in {"L", "B"}, b \in {2, 4, 8, 9}, x \in Words } ELSE {})
  \cup (IF "conv" \in Ops THEN { [op |-> "conv", h |-> h, m |-> m, x |-> x] : h \in {"L", "B"}, m \in 1..20, x \in Words }
                          \cup { [op |-> "konst", m |-> m, k |-> k, x |-> Zero] : m \in 1..20, k \in 1..4 } ELSE {})
  \cup (IF "align" \in Ops THEN { [op |-> o, x |-> x, k |-> k, b |-> b, v |-> v] : o \in {"up", "down", "is"}, x \in Words, k \in Shifts, b \in {4, 8}, v \in {0, 1} } ELSE {})
  \cup (IF "pow" \in Ops THEN { [op |-> o, x |-> x, b |-> b, v |-> v] : o \in {"pow2", "next"}, x \in Words \ {Zero}, b \in {4, 8}, v \in {0, 1} } ELSE {})
  \cup (IF "index" \in Ops THEN { [op |-> "index", x |-> x, y |-> y, b |-> b] : x \in Words, y \in {z \in Words : ~Lt(Top, z)}, b \in {4, 8} } ELSE {})
  \cup (IF "unit" \in Ops THEN { [op |-> "unit", m |-> m, x |-> x, b |-> b] : m \in 1..9, x \in Words, b \in {4, 8} } \cup { [op |-> "clock", m |-> m, x |-> x, y |-> y] : m \in 1..3, x \in Words, y \in {Zero, One, <<0, 0, 15, 16959>>} } ELSE {})
Events(s) == { e \in Evs(s) : CASE e.op = "enc" -> e.b = 9 => NotNan(e.x)
                                [] e.op = "dec" -> e.b = 9 => NotNan(Dec(e.h, 9, e.d))
                                [] e.op = "up" -> Fits(e.b, e.x, e.k)
                                [] e.op \in {"down", "is"} -> In(e.b, e.x) /\ e.k < 8 * e.b
                                [] e.op = "pow2" -> In(e.b, e.x) /\ e.v = 0
                                [] e.op = "next" -> In(e.b, e.x) /\ ~Lt(P2(8 * e.b - 1), e.x)
                                [] e.op = "index" -> In(e.b, e.x) /\ In(e.b, e.y)
                                [] e.op = "unit" -> Lt(e.x, P2(31))         \* b = 4: an argument of type int
                                [] e.op = "clock" -> Lt(e.x, P2(33))
                                [] OTHER -> TRUE }
Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
===============================================================================
