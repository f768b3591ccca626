--------------------------------- MODULE EscF ---------------------------------
(* Escaping and unescaping of strings.                                          *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Alpha, MaxLen0, Escs, Sets
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Oct(c) == c \in 48..55
Dig(c) == c \in 48..57
HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Named(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c \in {101, 69} -> 27 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> -1
\* longest run (at most m) of characters with P from position i: <<length, value in base b>>
RECURSIVE Run(_, _, _, _, _, _)
Run(q, i, m, b, n, v) ==
  LET d == IF b = 8 THEN (IF Oct(At(q, i)) THEN At(q, i) - 48 ELSE -1) ELSE IF b = 10 THEN (IF Dig(At(q, i)) THEN At(q, i) - 48 ELSE -1) ELSE HexV(At(q, i))
  IN IF n = m \/ i > Len(q) \/ d < 0 THEN <<n, v>> ELSE Run(q, i + 1, m, b, n + 1, v * b + d)
\* one unescape step at position i: <<bytes produced, next position>>
Step(q, i, x) ==
  IF q[i] # x THEN << <<q[i]>>, i + 1 >>
  ELSE IF i = Len(q) THEN << <<x>>, i + 1 >>
  ELSE LET c == q[i + 1] IN
    IF Named(c) >= 0 THEN << <<Named(c)>>, i + 2 >>
    ELSE IF c = 48 THEN LET r == Run(q, i + 2, 3, 8, 0, 0) IN << <<r[2] % 256>>, i + 2 + r[1] >>
    ELSE IF c \in 49..57 THEN LET r == Run(q, i + 1, 3, 10, 0, 0) IN << <<r[2] % 256>>, i + 1 + r[1] >>
    ELSE IF c = 120 THEN LET r == Run(q, i + 2, 2, 16, 0, 0) IN IF r[1] = 0 THEN << <<x, c>>, i + 2 >> ELSE << <<r[2]>>, i + 2 + r[1] >>
    ELSE << <<c>>, i + 2 >>
Unesc(q, x) == FoldLeft(LAMBDA a, i : IF i < a.nx THEN a ELSE LET t == Step(q, i, x) IN [out |-> a.out \o t[1], nx |-> t[2]],
                        [out |-> <<>>, nx |-> 1], [i \in 1..Len(q) |-> i]).out
Plain == {48, 49, 50, 51, 52, 53, 54, 55, 97, 98, 102, 110, 114, 116, 118}
\* escape forms that denote more than a byte are not specified
Big(q, i, x) == q[i] = x /\ ((At(q, i + 1) = 48 /\ Run(q, i + 2, 3, 8, 0, 0)[2] > 255) \/ (At(q, i + 1) \in 49..57 /\ Run(q, i + 1, 3, 10, 0, 0)[2] > 255))
Overflow(q, x) == FoldLeft(LAMBDA a, i : IF i < a.nx THEN a ELSE [big |-> a.big \/ Big(q, i, x), nx |-> Step(q, i, x)[2]],
                           [big |-> FALSE, nx |-> 1], [i \in 1..Len(q) |-> i]).big
Has(q, c) == \E i \in 1..Len(q) : q[i] = c
Ok(s, e) ==
  /\ e.term = 1
  /\ CASE e.op = "esc" ->
            /\ Unesc(e.o, e.x) = e.s
            /\ e.back = e.s                      \* the library's own unescaping
            /\ \A i \in 1..Len(e.set) : (e.set[i] \notin Plain) => ~ Has(e.o, e.set[i])
       [] e.op = "unesc" -> Overflow(e.s, e.x) \/ e.o = Unesc(e.s, e.x)
Strs == UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }
Events(s) == { [op |-> "unesc", s |-> q, x |-> x] : q \in Strs, x \in Escs }
       \cup { [op |-> "esc", s |-> q, set |-> z, x |-> x] : q \in Strs, x \in Escs, z \in Sets }
Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
===============================================================================
