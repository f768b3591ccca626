-------------------------------- MODULE Jobs --------------------------------
(* Job manager (kind 0: one shared queue) and work manager (kind 1: one queue *)
(* per worker, round-robin routing).  Used with Hist: the operations are      *)
(*   submit <<job>> or <<job, thread + 1>>  (thread returned in r)            *)
(*   run <<worker, job>>     the worker's execution of one job, r = 1 if the  *)
(*                           job reported failure                             *)
(*   wait                    r = number of failed jobs                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitState(c) == [n |-> c.cap, kind |-> c.kind, turns |-> {}, fails |-> 0, over |-> FALSE,
                 bag |-> {}, q |-> [w \in 0..(c.cap - 1) |-> <<>>],
                 who |-> [w \in 0..(c.cap - 1) |-> 0]]

Routed(s, e) == Len(e.a) > 1 /\ e.a[2] >= 1 /\ e.a[2] <= s.n

\* Unrouted submissions take turns 0, 1, 2, ...; turn c goes to thread c mod n.
\* Taking a turn and entering the thread's queue are two steps, so submissions
\* that overlap may enter in either order; without overlap the turn is exact.
Turns(s, e, O) ==
  LET k == Cardinality({ o \in O : o.op = "submit" /\ ~Routed(s, o) })
      m == Cardinality(s.turns) IN
  { c \in (m - k)..(m + k) : c >= 0 /\ c \notin s.turns /\ c % s.n = e.r }

Submit(s, e, O) ==
  IF s.over THEN {}
  ELSE IF s.kind = 0 THEN {[s EXCEPT !.bag = @ \cup {e.a[1]}]}
  ELSE IF Routed(s, e)
       THEN IF e.r = e.a[2] - 1 THEN {[s EXCEPT !.q[e.r] = Append(@, e.a[1])]} ELSE {}
       ELSE { [s EXCEPT !.q[e.r] = Append(@, e.a[1]), !.turns = @ \cup {c}] : c \in Turns(s, e, O) }

Run(s, e) ==
  LET w == e.a[1]
      j == e.a[2]
      f == IF j >= 100 THEN 1 ELSE 0
      t == [s EXCEPT !.fails = @ + f, !.who[w] = e.t] IN
  IF s.over \/ w \notin 0..(s.n - 1) \/ e.r # f THEN {}
  ELSE IF s.who[w] \notin {0, e.t} \/ \E x \in 0..(s.n - 1) : x # w /\ s.who[x] = e.t THEN {}
  ELSE IF s.kind = 0 THEN (IF j \in s.bag THEN {[t EXCEPT !.bag = @ \ {j}]} ELSE {})
  ELSE IF s.q[w] # <<>> /\ Head(s.q[w]) = j THEN {[t EXCEPT !.q[w] = Tail(@)]} ELSE {}

\* everything submitted has been executed, and the executions have ended
Wait(s, e, O) ==
  IF /\ ~s.over
     /\ s.turns = 0..(Cardinality(s.turns) - 1)
     /\ s.bag = {} /\ \A w \in 0..(s.n - 1) : s.q[w] = <<>>
     /\ \A o \in O : o.op = "run" => o.m # 0 /\ o.m < e.m
     /\ e.r = s.fails
  THEN {[s EXCEPT !.over = TRUE]} ELSE {}

Do(s, e, O) == CASE e.op = "submit" -> Submit(s, e, O)
                 [] e.op = "run" -> Run(s, e)
                 [] e.op = "wait" -> Wait(s, e, O)
                 [] e.op = "signal" -> {s}
                 [] OTHER -> {}
Blocked(s, e) == FALSE
=============================================================================
