--------------------------------- MODULE UtilF --------------------------------
(* Bounded copy, directory names, trimming, quote removal, case-folded compare.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Alpha, MaxLen0, Sizes, Ops
Space == {32} \cup 9..13
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
IsText(c) == c \notin Space
First(q) == LET k == SelectInSeq(q, IsText) IN IF k = 0 THEN Len(q) + 1 ELSE k
Last0(q) == SelectLastInSeq(q, IsText)
Trim(q) == Rng(q, First(q), Last0(q))
LastNot(q, c, i) == SelectLastInSubSeq(q, 1, i, LAMBDA x : x # c)
LastIs(q, c, i) == SelectLastInSubSeq(q, 1, i, LAMBDA x : x = c)
Slash == 47
\* dirname(1); a result may carry redundant trailing slashes
StripSl(q) == LET n == LastNot(q, Slash, Len(q)) IN IF n = 0 THEN (IF q = <<>> THEN <<>> ELSE <<Slash>>) ELSE Rng(q, 1, n)
Dir(q) == LET n == LastNot(q, Slash, Len(q))          \* end of the last component
              k == LastIs(q, Slash, n)                \* slash before it
          IN IF n = 0 THEN (IF q = <<>> THEN <<46>> ELSE <<Slash>>)
             ELSE IF k = 0 THEN <<46>> ELSE StripSl(Rng(q, 1, k))
Copied(q, n) == Rng(q, 1, IF Len(q) < n - 1 THEN Len(q) ELSE n - 1)
Quote(q) == q # <<>> /\ q[1] \in {34, 39}
UnqOk(q) == Len(q) >= 2 /\ q[Len(q)] = q[1]
Fold(x) == IF x \in 65..90 THEN x + 32 ELSE x
At0(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Cmp(a, b, n) ==
  LET m == LET w == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1 IN IF n < w THEN n ELSE w
      D == [i \in 1..m |-> LET x == Fold(At0(a, i)) y == Fold(At0(b, i)) IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE IF x = 0 THEN 2 ELSE 0]
      k == SelectInSeq(D, LAMBDA d : d # 0)
  IN IF k = 0 THEN 0 ELSE IF D[k] = 2 THEN 0 ELSE D[k]
Ok(s, e) ==
  CASE e.op = "copy" -> e.o = Copied(e.s, e.n) /\ (IF Len(e.s) < e.n THEN e.r = Len(e.s) ELSE e.r < 0)
    [] e.op = "dir" -> IF e.n < Len(e.s) + 1 \/ (e.s = <<>> /\ e.n < 2) THEN e.r = 0 ELSE e.r = 1 /\ StripSl(e.o) = Dir(e.s)
    [] e.op = "lcpy" -> e.r = Len(e.s) /\ e.o = (IF e.n = 0 THEN <<>> ELSE Copied(e.s, e.n)) /\ e.nul = (IF e.n = 0 THEN 0 ELSE 1)
    [] e.op = "cmp" -> e.r = Cmp(e.s, e.t, 100000)
    [] e.op = "ncmp" -> e.r = Cmp(e.s, e.t, e.n)
    [] e.op = "trim" -> e.r = 1 /\ e.o = Trim(e.s)
    [] e.op = "unq" -> IF ~ Quote(e.s) THEN e.r = 0 /\ e.o = e.s
                       ELSE IF UnqOk(e.s) THEN e.r = e.s[1] /\ e.o = SubSeq(e.s, 2, Len(e.s) - 1) ELSE e.r < 0 /\ e.o = e.s
Strs == UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }
Events(s) == { [op |-> o, s |-> q, n |-> n] : o \in Ops \cap {"copy", "lcpy", "dir"}, q \in Strs, n \in Sizes } \cup { [op |-> o, s |-> q] : o \in Ops \cap {"trim", "unq"}, q \in Strs }
   \cup (IF "cmp" \in Ops THEN { [op |-> "cmp", s |-> q, t |-> t] : q, t \in Strs } \cup { [op |-> "ncmp", s |-> q, t |-> t, n |-> n] : q, t \in Strs, n \in Sizes } ELSE {})
Cfgs == { [k |-> 0] }
InitState(c) == 0
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
===============================================================================
