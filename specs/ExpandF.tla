-------------------------------- MODULE ExpandF -------------------------------
(* Variable expansion: the state is the environment (list of name/value pairs,   *)
(* last definition wins); expanding a template is a scan from left to right.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Alpha, MaxLen0, Names, Values
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Dollar == 36
Special == {36, 35, 64, 63, 42, 33, 60, 62, 37, 94, 38, 45, 95, 124, 58, 46}
NameCh(c) == c \in Special \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
RECURSIVE PlainEnd(_, _), Brace(_, _)
PlainEnd(q, i) == IF i <= Len(q) /\ NameCh(q[i]) THEN PlainEnd(q, i + 1) ELSE i
Brace(q, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = 125 THEN i ELSE Brace(q, i + 1)
\* reference after the dollar sign at i: name (empty: malformed) and next position
Ref(q, i) ==
  IF At(q, i + 1) = 123
  THEN LET b == Brace(q, i + 2) IN IF b = 0 THEN [n |-> <<>>, next |-> Len(q) + 1] ELSE [n |-> SubSeq(q, i + 2, b - 1), next |-> b + 1]
  ELSE LET p == PlainEnd(q, i + 1) IN [n |-> SubSeq(q, i + 1, p - 1), next |-> p]
RECURSIVE Scan(_, _, _, _, _)
Scan(env, q, i, out, asked) ==
  IF i > Len(q) THEN [st |-> 0, out |-> out, asked |-> asked]
  ELSE IF q[i] # Dollar THEN Scan(env, q, i + 1, Append(out, q[i]), asked)
  ELSE IF i > 1 /\ q[i - 1] = 92 THEN Scan(env, q, i + 1, [out EXCEPT ![Len(out)] = Dollar], asked)
  ELSE LET v == Ref(q, i) IN
       IF v.n = <<>> THEN [st |-> -22, out |-> <<>>, asked |-> asked]
       ELSE IF v.n \notin DOMAIN env THEN [st |-> -2, out |-> <<>>, asked |-> Append(asked, v.n)]
       ELSE Scan(env, q, v.next, out \o env[v.n], Append(asked, v.n))
Cfgs == { [k |-> 0] }
InitState(c) == << >>
After(s, e) == IF e.op = "set" THEN [x \in DOMAIN s \cup {e.n} |-> IF x = e.n THEN e.v ELSE s[x]] ELSE s
Ok(s, e) ==
  IF e.op = "set" THEN TRUE
  ELSE LET x == Scan(s, e.t, 1, <<>>, <<>>) IN
       /\ e.r = x.st /\ e.term = 1
       /\ e.asked = x.asked
       /\ x.st = 0 => e.o = x.out
Strs0 == UNION { [1..k -> Alpha] : k \in 0..MaxLen0 }
Ev(s) == IF DOMAIN s = Names THEN { [op |-> "exp", t |-> q] : q \in Strs0 }
         ELSE { [op |-> "set", n |-> n, v |-> v] : n \in {CHOOSE x \in Names : x \notin DOMAIN s}, v \in Values }
Events(s) == Ev(s)
Abs(s) == s
Good(s) == TRUE
===============================================================================
