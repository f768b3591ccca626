-------------------------------- MODULE Lin --------------------------------
(* On-the-fly linearizability monitor for the algorithm models of the bounded *)
(* FIFO family.  lin is the set of all abstract configurations consistent     *)
(* with the calls and returns seen so far: contents q and, per thread, where  *)
(* its current call stands ("idle", "pend" = not yet taken effect, or the     *)
(* result it must return).  The algorithm implements the abstract queue iff   *)
(* lin never becomes empty.                                                   *)
(* A result with x = TRUE (refusal or short burst although there was room)    *)
(* is allowed only to a call that an opposite call overlaps, and only when    *)
(* the algorithm is declared to be that weak.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Cap, Weak
VARIABLES lin, pend, ov

None == [op |-> "none", xs |-> <<>>, n |-> 0]
Idle == [s |-> "idle", r |-> 0, v |-> <<>>, x |-> FALSE]
Pend == [s |-> "pend", r |-> 0, v |-> <<>>, x |-> FALSE]
Res(r, v, x) == [s |-> "done", r |-> r, v |-> v, x |-> x]

IsEnq(o) == o.op \in {"enqb", "enqv", "enqw"}
IsDeq(o) == o.op \in {"deqb", "deqv", "deqw"}
Opposite(o, p) == (IsEnq(o) /\ IsDeq(p)) \/ (IsDeq(o) /\ IsEnq(p))
LMin(a, b) == IF a < b THEN a ELSE b

\* the ways operation o can take effect on contents q: <<new contents, result>>
Options(q, o) ==
  LET free == Cap - Len(q) IN
  CASE o.op = "enqb" ->
         (IF Len(o.xs) <= free THEN {<<q \o o.xs, Res(Len(o.xs), <<>>, FALSE)>>} ELSE {})
         \cup (IF Len(o.xs) > free \/ Weak THEN {<<q, Res(0, <<>>, Len(o.xs) <= free)>>} ELSE {})
    [] o.op = "enqv" ->
         LET m == LMin(Len(o.xs), free) IN
         { <<q \o SubSeq(o.xs, 1, k), Res(k, <<>>, k < m)>> : k \in (IF Weak THEN 0..m ELSE {m}) }
    [] o.op = "enqw" -> IF Len(o.xs) <= free THEN {<<q \o o.xs, Res(Len(o.xs), <<>>, FALSE)>>} ELSE {}
    [] o.op = "deqb" ->
         (IF o.n <= Len(q) THEN {<<SubSeq(q, o.n + 1, Len(q)), Res(o.n, SubSeq(q, 1, o.n), FALSE)>>} ELSE {})
         \cup (IF o.n > Len(q) \/ Weak THEN {<<q, Res(0, <<>>, o.n <= Len(q))>>} ELSE {})
    [] o.op = "deqv" ->
         LET m == LMin(o.n, Len(q)) IN
         { <<SubSeq(q, k + 1, Len(q)), Res(k, SubSeq(q, 1, k), k < m)>> : k \in (IF Weak THEN 0..m ELSE {m}) }
    [] o.op = "deqw" -> IF q # <<>> THEN {<<Tail(q), Res(1, <<Head(q)>>, FALSE)>>} ELSE {}

StepBy(c, p, th) == IF c.res[th].s # "pend" THEN {}
                    ELSE { [q |-> z[1], res |-> [c.res EXCEPT ![th] = z[2]]] : z \in Options(c.q, p[th]) }
RECURSIVE Close(_, _, _)
Close(S, p, k) == IF k = 0 THEN S
                  ELSE Close(S \cup UNION { UNION { StepBy(c, p, th) : th \in Threads } : c \in S }, p, k - 1)

LinInit(q0) == /\ lin = {[q |-> q0, res |-> [th \in Threads |-> Idle]]}
               /\ pend = [th \in Threads |-> None]
               /\ ov = [th \in Threads |-> FALSE]

\* thread th calls operation o
Invoke(th, o) ==
  /\ pend' = [pend EXCEPT ![th] = o]
  /\ ov' = [u \in Threads |-> IF u = th THEN \E w \in Threads : Opposite(o, pend[w])
                              ELSE ov[u] \/ Opposite(o, pend[u])]
  /\ lin' = Close({ [c EXCEPT !.res[th] = Pend] : c \in lin }, pend', Cardinality(Threads))

\* ... and gets r, v
Return(th, r, v) ==
  /\ lin' = { [c EXCEPT !.res[th] = Idle] :
              c \in { d \in lin : /\ d.res[th].s = "done" /\ d.res[th].r = r /\ d.res[th].v = v
                                  /\ (d.res[th].x => ov[th]) } }
  /\ pend' = [pend EXCEPT ![th] = None]
  /\ ov' = [ov EXCEPT ![th] = FALSE]

Internal == UNCHANGED <<lin, pend, ov>>
Linearizable == lin # {}

\* nothing moves any more: then the abstract queue must not be able to move either
MayRest == \E c \in lin : \A th \in Threads :
             c.res[th].s = "idle" \/ (c.res[th].s = "pend" /\ Options(c.q, pend[th]) = {})
=============================================================================
