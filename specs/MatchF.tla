--------------------------------- MODULE MatchF -------------------------------
(* Pattern matching: positions (from 0) at which the pattern occurs.             *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Alpha, MaxPat, MaxText
At(p, t, k) == \A i \in 1..Len(p) : t[k + i] = p[i]
Pos(p, t) == IF Len(p) > Len(t) THEN <<>> ELSE SelectSeq([k \in 1..(Len(t) - Len(p) + 1) |-> k - 1], LAMBDA k : At(p, t, k))
\* leftmost non-overlapping occurrences
Greedy(f, n) == FoldLeft(LAMBDA a, k : IF a = <<>> \/ a[Len(a)] + n <= k THEN Append(a, k) ELSE a, <<>>, f)
Ok(s, e) ==
  LET f == Pos(s.p, e.t) IN
  /\ e.bm = f /\ e.tbm = f /\ e.rk = f
  /\ e.kmp = Greedy(f, Len(s.p))
  /\ e.ok = 1               \* accessors give back the pattern
Pats == UNION { [1..k -> Alpha] : k \in 1..MaxPat }
Texts == UNION { [1..k -> Alpha] : k \in 0..MaxText }
Cfgs == { [p |-> p, w |-> w] : p \in Pats, w \in {0} }
InitState(c) == [p |-> c.p]
Events(s) == { [op |-> "find", t |-> t] : t \in Texts }
After(s, e) == s
Abs(s) == s
Good(s) == TRUE
===============================================================================
