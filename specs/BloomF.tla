------------------------------- MODULE BloomF -------------------------------
(* Bloom filters (bloom.h): typ 0 counting, 1 standard, 2 scalable.  The     *)
(* specification's state is the multiset of elements; the filter may answer  *)
(* "present" for anything but must do so for every element of the multiset.  *)
(* Events: op, x (element), r (result), n (elements reported), dig (digest   *)
(* of the filter's contents), f (membership answer before the call).         *)
(* The contents of a counting filter whose counters have not saturated are a *)
(* function of the multiset: equal multisets, equal digests.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Els, Types, Caps, Errs, MaxCount

Cfgs == { [typ |-> t, n |-> n, e |-> e, seed |-> 1] : t \in Types, n \in Caps, e \in Errs }
InitState(c) == [typ |-> c.typ, m |-> <<>>, n |-> 0, top |-> 0, seen |-> {}]
\* multiset as a function (sequence of pairs would not be canonical)
Cnt(s, x) == IF x \in DOMAIN s.m THEN s.m[x] ELSE 0
SetCnt(s, x, k) == IF k = 0 THEN [y \in DOMAIN s.m \ {x} |-> s.m[y]]
                   ELSE [y \in DOMAIN s.m \cup {x} |-> IF y = x THEN k ELSE s.m[y]]
Max(a, b) == IF a > b THEN a ELSE b
Counting(s) == s.typ = 0
After(s, e) ==
  LET t == CASE e.op = "add" -> [s EXCEPT !.m = SetCnt(s, e.x, Cnt(s, e.x) + 1), !.n = @ + 1, !.top = Max(@, s.n + 1)]
             [] e.op = "rem" /\ Counting(s) /\ Cnt(s, e.x) > 0 -> [s EXCEPT !.m = SetCnt(s, e.x, Cnt(s, e.x) - 1), !.n = @ - 1]
             [] OTHER -> s
  IN IF Counting(s) /\ t.top < 255 /\ "dig" \in DOMAIN e THEN [t EXCEPT !.seen = @ \cup {<<t.m, e.dig>>}] ELSE t
Ok(s, e) ==
  LET t == After(s, e) IN
  /\ e.n = t.n
  /\ Counting(s) /\ t.top < 255 => \A p \in s.seen : p[1] = t.m => p[2] = e.dig
  /\ Cnt(s, e.x) > 0 => e.f = 1
  /\ CASE e.op = "find" -> e.r = e.f
       [] e.op = "rem" -> IF ~Counting(s) THEN e.r = 1
                          ELSE IF Cnt(s, e.x) > 0 THEN e.r = 1
                          ELSE e.f = 0 /\ e.r = 0          \* absent and reported absent
       [] e.op = "remabs" -> e.r = 0                       \* not carried out when reported present
       [] e.op = "add" -> e.r = 1                          \* found right after
Events(s) == { [op |-> "add", x |-> x] : x \in { x \in Els : Cnt(s, x) < MaxCount } } \cup
             { [op |-> "find", x |-> x] : x \in Els } \cup
             { [op |-> "rem", x |-> x] : x \in { x \in Els : Cnt(s, x) > 0 } } \cup
             { [op |-> "remabs", x |-> x] : x \in (IF Counting(s) THEN { x \in Els : Cnt(s, x) = 0 } ELSE {}) }
Abs(s) == s.m
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
Good(s) == s.n = Sum(s.m, DOMAIN s.m)
=============================================================================
