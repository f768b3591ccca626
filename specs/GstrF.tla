--------------------------------- MODULE GstrF --------------------------------
(* Growable strings: a fixed number of string variables, each a mathematical    *)
(* sequence, and an input stream for line reading.                              *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Chars, Strs, Files, MaxN, Slots
Space == {32} \cup 9..13
Cfgs == { [n |-> Slots] }
InitState(c) == [v |-> [i \in 1..c.n |-> <<>>], f |-> <<>>]
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
IsText(c) == c \notin Space
First(q) == LET k == SelectInSeq(q, IsText) IN IF k = 0 THEN Len(q) + 1 ELSE k
Last0(q) == SelectLastInSeq(q, IsText)
Trim(q) == Rng(q, First(q), Last0(q))
LastCh(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]
ButLast(q) == SubSeq(q, 1, Len(q) - 1)
Chop(q) == LET a == IF LastCh(q) = 10 THEN ButLast(q) ELSE q IN IF LastCh(a) = 13 THEN ButLast(a) ELSE a
In(t, c) == \E i \in 1..Len(t) : t[i] = c
ChopIf(q, t) == IF q # <<>> /\ In(t, LastCh(q)) THEN ButLast(q) ELSE q
Quoted(q) == q # <<>> /\ q[1] \in {34, 39}
UnqOk(q) == Len(q) >= 2 /\ LastCh(q) = q[1]
Unq(q) == IF Quoted(q) /\ UnqOk(q) THEN SubSeq(q, 2, Len(q) - 1) ELSE q
\* position of the first delimiter of q, Len+1 if none
Until(q, t) == LET k == SelectInSeq(q, LAMBDA c : In(t, c)) IN IF k = 0 THEN Len(q) + 1 ELSE k
Line(f, t) == Rng(f, 1, Until(f, t) - 1)
Rest(f, t) == Rng(f, Until(f, t) + 1, Len(f))

After(s, e) ==
  LET q == IF "i" \in DOMAIN e THEN s.v[e.i] ELSE <<>>
      Set(x) == [s EXCEPT !.v[e.i] = x]
  IN CASE e.op = "appstr" -> Set(q \o e.b)
       [] e.op = "app" -> Set(q \o s.v[e.j])
       [] e.op = "apptail" -> Set(q \o Rng(q, e.k + 1, Len(q)))    \* appending a part of itself
       [] e.op = "appch" -> Set(Append(q, e.x))
       [] e.op \in {"copy", "dup"} -> Set(s.v[e.j])
       [] e.op = "from" -> Set(e.b)
       [] e.op \in {"init", "reset"} -> Set(<<>>)
       [] e.op = "trunc" -> Set(Rng(q, 1, IF e.k < Len(q) THEN e.k ELSE Len(q)))
       [] e.op = "trim" -> Set(Trim(q))
       [] e.op = "chop" -> Set(Chop(q))
       [] e.op = "chopif" -> Set(ChopIf(q, e.b))
       [] e.op = "unq" -> Set(Unq(q))
       [] e.op = "file" -> [s EXCEPT !.f = e.b]
       [] e.op = "line" -> [s EXCEPT !.v[e.i] = Line(s.f, e.b), !.f = Rest(s.f, e.b)]
       [] OTHER -> s
Ok(s, e) ==
  LET t == After(s, e)
      q == IF "i" \in DOMAIN e THEN s.v[e.i] ELSE <<>>
      n == IF "i" \in DOMAIN e THEN Len(t.v[e.i]) ELSE 0
  IN /\ e.c = t.v                 \* every variable, also the ones not operated on
     /\ e.term = 1                \* length, terminator and capacity agree
     /\ CASE e.op \in {"appstr", "app", "apptail", "appch", "trunc", "line"} -> e.r = n
          [] e.op = "chop" -> (t.v[e.i] # q) => e.r # 0
          [] e.op = "chopif" -> (t.v[e.i] # q) => e.r = LastCh(q)
          [] e.op = "unq" -> IF ~ Quoted(q) THEN e.r = 0 ELSE IF UnqOk(q) THEN e.r = q[1] ELSE e.r < 0
          [] e.op = "eq" -> (e.r # 0) = (q = s.v[e.j])
          [] e.op = "eqs" -> (e.r # 0) = (q = e.b)
          [] e.op = "ends" -> e.r = LastCh(q) * 256 + (IF q = <<>> THEN 0 ELSE q[1])
          [] OTHER -> TRUE
I == 1..Slots
Ev(s) ==
  { [op |-> "appstr", i |-> i, b |-> b] : i \in I, b \in Strs } \cup { [op |-> "app", i |-> i, j |-> j] : i \in I, j \in I }
  \cup { [op |-> "apptail", i |-> i, k |-> k] : i \in {1}, k \in 0..1 } \cup { [op |-> "appch", i |-> i, x |-> x] : i \in I, x \in Chars }
  \cup { [op |-> o, i |-> i, j |-> j] : o \in {"copy", "eq"}, i \in I, j \in I } \cup { [op |-> "dup", i |-> i, j |-> j] : i \in I, j \in I }
  \cup { [op |-> "from", i |-> 1, b |-> b] : b \in Strs } \cup { [op |-> "init", i |-> 2, k |-> k] : k \in {0, 1} }
  \cup { [op |-> "trunc", i |-> i, k |-> k] : i \in {1}, k \in 0..2 }
  \cup { [op |-> o, i |-> i] : o \in {"trim", "chop", "unq", "ends", "reset"}, i \in I }
  \cup { [op |-> o, i |-> 1, b |-> b] : o \in {"chopif", "eqs"}, b \in Strs }
  \cup { [op |-> "file", b |-> b] : b \in Files } \cup { [op |-> "line", i |-> 2, b |-> b] : b \in {<<10>>, <<44, 10>>} }
Events(s) == { e \in Ev(s) : /\ \A i \in I : Len(After(s, e).v[i]) <= MaxN
                             /\ e.op \in {"dup"} => e.i # e.j
                             /\ e.op = "apptail" => e.k <= Len(s.v[e.i]) }
Abs(s) == s
Good(s) == \A i \in I : Len(s.v[i]) <= MaxN /\ Trim(Trim(s.v[i])) = Trim(s.v[i])
===============================================================================
