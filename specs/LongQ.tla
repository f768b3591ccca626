-------------------------------- MODULE LongQ --------------------------------
(* Bounded queues of any size, used by one thread: the numbers 1, 2, 3, ... are  *)
(* offered in order (a refused number is offered again next time), so the queue   *)
(* always holds the interval h+1 .. t and what comes out must be that interval.   *)
(* A put offers n numbers in portions of m; all of a portion fits or (pt = 0)     *)
(* none of it is taken; portions are offered until one is cut short.  A get asks  *)
(* for n numbers in portions of m in the same way.  What comes out is reported    *)
(* as maximal runs <<first, length>>.                                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Kinds, Sizes, Ns
Cfgs == { [kind |-> k, req |-> n, cap |-> n, pt |-> p] : k \in Kinds, n \in Sizes, p \in {0, 1} }
InitState(c) == [cap |-> c.cap, pt |-> c.pt, h |-> 0, t |-> 0]
Lesser(a, b) == IF a < b THEN a ELSE b
\* n numbers in portions of m (the last one shorter) against room for x
Moved(s, n, m, x) ==
  IF n <= x THEN n
  ELSE IF s.pt = 1 THEN x ELSE m * (x \div m)
Put(s, e) == Moved(s, e.n, e.m, s.cap - (s.t - s.h))
Get(s, e) == Moved(s, e.n, e.m, s.t - s.h)
After(s, e) ==
  CASE e.op = "put" -> [s EXCEPT !.t = @ + Put(s, e)]
    [] e.op = "get" -> [s EXCEPT !.h = @ + Get(s, e)]
    [] e.op = "age" -> s                    \* 65536 * n - m other items have passed through the empty queue
Report(s) == [sz |-> s.t - s.h, f |-> IF s.t - s.h = s.cap THEN 1 ELSE 0, e |-> IF s.t = s.h THEN 1 ELSE 0]
Ok(s, e) ==
  LET w == Report(After(s, e)) IN
  /\ e.sz \in {w.sz, -2} /\ e.f \in {w.f, -2} /\ e.e \in {w.e, -2}      \* -2: this queue does not tell
  /\ CASE e.op = "put" -> e.r = Put(s, e)
       [] e.op = "age" -> s.h = s.t /\ e.r = 0 /\ e.runs = <<>>
       [] e.op = "get" -> e.runs = IF Get(s, e) = 0 THEN <<>> ELSE << <<s.h + 1, Get(s, e)>> >>
Events(s) == { [op |-> o, n |-> n, m |-> m] : o \in {"put", "get"}, n \in Ns, m \in {1, 2} }
Abs(s) == s
Good(s) == s.h <= s.t /\ s.t - s.h <= s.cap
=============================================================================
