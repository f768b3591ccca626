--------------------------------- MODULE IdF ----------------------------------
(* UUID and ULID text forms; generation against a controlled clock.             *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Ids, UTexts, LTexts, Times
HexD(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Up(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
Hex2(b) == <<HexD(b \div 16), HexD(b % 16)>>
Hexs(q) == FlattenSeq([i \in 1..Len(q) |-> Hex2(q[i])])
Dash == <<45>>
UText(q) == Hexs(SubSeq(q,1,4)) \o Dash \o Hexs(SubSeq(q,5,6)) \o Dash \o Hexs(SubSeq(q,7,8)) \o Dash \o Hexs(SubSeq(q,9,10)) \o Dash \o Hexs(SubSeq(q,11,16))
UDigits(t) == SelectSeq(t, LAMBDA c : HexV(c) >= 0)
UWell(t) == Len(t) = 36 /\ Len(UDigits(t)) = 32 /\ \A i \in 1..36 : HexV(t[i]) >= 0 \/ t[i] = 45
UCanon(t) == UWell(t) /\ \A i \in {9, 14, 19, 24} : t[i] = 45
UVal(t) == LET d == UDigits(t) IN [k \in 1..16 |-> HexV(d[2*k-1]) * 16 + HexV(d[2*k])]
\* Crockford base 32: no I, L, O, U
B32 == <<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,77,78,80,81,82,83,84,86,87,88,89,90>>
B32V(c) == LET u == IF c \in 97..122 THEN c - 32 ELSE c IN IF \E i \in 1..32 : B32[i] = u THEN (CHOOSE i \in 1..32 : B32[i] = u) - 1 ELSE -1
Bit(q, k) == \* k-th of 130 bits (two zero bits in front of the 128)
  IF k <= 2 THEN 0 ELSE LET j == k - 3 IN (q[(j \div 8) + 1] \div (2 ^ (7 - (j % 8)))) % 2
LText(q) == [i \in 1..26 |-> B32[1 + 16 * Bit(q, 5*i-4) + 8 * Bit(q, 5*i-3) + 4 * Bit(q, 5*i-2) + 2 * Bit(q, 5*i-1) + Bit(q, 5*i)]]
LWell(t) == Len(t) = 26 /\ (\A i \in 1..26 : B32V(t[i]) >= 0) /\ B32V(t[1]) < 8
TBit(t, k) == (B32V(t[((k - 1) \div 5) + 1]) \div (2 ^ (4 - ((k - 1) % 5)))) % 2
LVal(t) == [n \in 1..16 |-> LET b == 8 * (n - 1) + 2 IN
   128 * TBit(t,b+1) + 64 * TBit(t,b+2) + 32 * TBit(t,b+3) + 16 * TBit(t,b+4) + 8 * TBit(t,b+5) + 4 * TBit(t,b+6) + 2 * TBit(t,b+7) + TBit(t,b+8)]
TimeBytes(m) == <<m[1] \div 256, m[1] % 256, m[2] \div 256, m[2] % 256, m[3] \div 256, m[3] % 256>>
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Cfgs == { [k |-> 0] }
InitState(c) == [ms |-> <<0, 0, 0>>, id |-> <<>>, t |-> <<>>]
After(s, e) == IF e.op = "lgen" /\ "o" \in DOMAIN e /\ e.r >= 0 THEN [ms |-> e.ms, id |-> e.o, t |-> e.t] ELSE s
Ok(s, e) ==
  CASE e.op = "ustr" -> IF e.n < 37 THEN e.r < 0 ELSE e.r \in {36, 37} /\ Up(e.o) = UText(e.id)
    [] e.op = "uparse" -> IF e.n < 16 \/ ~ UWell(e.s) THEN e.r < 0
                          ELSE \/ e.r = 16 /\ e.o = UVal(e.s)
                               \/ e.r < 0 /\ ~ UCanon(e.s)
    \* no random bytes or no time to be had: an error.  All but the marks are the bytes of the random source (g; empty: it was not seen)
    [] e.op = "ugen" -> IF e.n < 16 \/ e.hit = 1 THEN e.r < 0
                        ELSE /\ e.r = 16 /\ e.o[7] \div 16 = 4 /\ e.o[9] \div 64 = 2
                             /\ (e.g # <<>> => Len(e.g) = 16 /\ e.o[7] % 16 = e.g[7] % 16 /\ e.o[9] % 64 = e.g[9] % 64 /\ \A i \in (1..16) \ {7, 9} : e.o[i] = e.g[i])
    [] e.op = "lstr" -> IF e.n < 27 THEN e.r < 0 ELSE e.r \in {26, 27} /\ Up(e.o) = LText(e.id)
    [] e.op = "lparse" -> IF e.n < 16 \/ ~ LWell(e.s) THEN e.r < 0 ELSE e.r = 16 /\ e.o = LVal(e.s)
    [] e.op = "lgen" -> IF e.n < 16 \/ e.hit = 1 THEN e.r < 0
                        ELSE /\ (e.g # <<>> => e.g = SubSeq(e.o, 7, 16))
                             /\ e.r = 16 /\ SubSeq(e.o, 1, 6) = TimeBytes(e.ms) /\ Up(e.t) = LText(e.o)
                             /\ (s.id # <<>> /\ Less(s.ms, e.ms)) => Less(s.id, e.o) /\ Less(s.t, e.t)
                             /\ (s.id # <<>> /\ Less(e.ms, s.ms)) => Less(e.o, s.id) /\ Less(e.t, s.t)
Events(s) ==
  { [op |-> o, id |-> q, n |-> n] : o \in {"ustr"}, q \in Ids, n \in {36, 37, 40} } \cup { [op |-> "lstr", id |-> q, n |-> n] : q \in Ids, n \in {26, 27, 40} }
  \cup { [op |-> "uparse", s |-> t, n |-> n] : t \in UTexts, n \in {15, 16} } \cup { [op |-> "lparse", s |-> t, n |-> n] : t \in LTexts, n \in {15, 16} }
  \cup { [op |-> "ugen", n |-> n, f |-> f] : n \in {0, 15, 16, 20}, f \in {0, 1} } \cup { [op |-> "lgen", ms |-> m, us |-> 7, n |-> n, f |-> f] : m \in Times, n \in {15, 16}, f \in {0, 1, 2} }
Abs(s) == s
Good(s) == TRUE
\* texts are faithful, and order agrees with identifier order
Faithful == \A q \in Ids : UVal(UText(q)) = q /\ LVal(LText(q)) = q /\ UCanon(UText(q)) /\ LWell(LText(q))
Ordered(S) == \A a, b \in S : Less(a, b) <=> Less(LText(a), LText(b))
===============================================================================
