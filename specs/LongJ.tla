-------------------------------- MODULE LongJ --------------------------------
(* Job managers (kind 0: one queue for all threads) and work managers (kind 1:   *)
(* a queue per thread) with any number of threads and jobs, one submitter.       *)
(*   put n f to    n jobs, numbered on; those whose number f divides fail        *)
(*                 (f = 0: none); handed to thread `to`, or (out of range) to    *)
(*                 the threads in turn.  rets: the threads chosen (kind 1).      *)
(*   wait          ends the manager: r = number of failed jobs; o, t: what was   *)
(*                 run and by which thread, thread by thread                     *)
(* No threads asked for: as many as there are processors (cpus).                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Kinds, Threads, Ns, Cpus
Cfgs == { [kind |-> k, n |-> n, cpus |-> Cpus] : k \in Kinds, n \in Threads }
Thr(c) == IF c.n <= 0 THEN c.cpus ELSE c.n
\* the threads chosen so far, as segments <<jobs, first thread, step>>: job i of a segment goes to (first + step * i) mod threads
InitState(c) == [kind |-> c.kind, n |-> Thr(c), jobs |-> 0, turn |-> 0, seg |-> <<>>, fails |-> 0, over |-> 0]
Direct(s, e) == e.to >= 0 /\ e.to < s.n
Fails(s, e) == IF e.f = 0 THEN 0 ELSE (s.jobs + e.n) \div e.f - s.jobs \div e.f
After(s, e) ==
  CASE e.op = "put" -> [s EXCEPT !.jobs = @ + e.n, !.fails = @ + Fails(s, e),
                                !.turn = IF s.kind = 1 /\ ~ Direct(s, e) THEN (@ + e.n) % s.n ELSE @,
                                !.seg = IF s.kind = 1 THEN Append(@, IF Direct(s, e) THEN <<e.n, e.to, 0>> ELSE <<e.n, s.turn, 1>>) ELSE @]
    [] e.op = "wait" -> [s EXCEPT !.over = 1]
At(s, g, i) == (g[2] + g[3] * (i - 1)) % s.n        \* where the i-th job of a segment goes
Chosen(s) == FoldLeft(LAMBDA q, g : q \o [i \in 1..g[1] |-> At(s, g, i)], <<>>, s.seg)
Ok(s, e) ==
  CASE e.op = "put" -> IF s.kind = 0 THEN e.rets = <<>>
                       ELSE e.rets = [i \in 1..e.n |-> IF Direct(s, e) THEN e.to ELSE (s.turn + i - 1) % s.n]
    [] e.op = "wait" -> /\ e.r = s.fails
                        /\ Len(e.o) = s.jobs /\ Len(e.t) = s.jobs /\ e.th = s.n /\ e.who = 1
                        /\ \A i \in 1..Len(e.o) : e.o[i] \in 1..s.jobs /\ e.t[i] \in 0..(s.n - 1)
                        /\ \A i \in 2..Len(e.o) : e.t[i-1] < e.t[i] \/ (e.t[i-1] = e.t[i] /\ e.o[i-1] < e.o[i])
                        /\ IF s.kind = 1 THEN LET c == Chosen(s) IN \A i \in 1..Len(e.o) : e.t[i] = c[e.o[i]]
                           ELSE Cardinality({ e.o[i] : i \in 1..Len(e.o) }) = s.jobs
Events(s) == IF s.over = 1 THEN {} ELSE { [op |-> "put", n |-> n, f |-> f, to |-> t] : n \in Ns, f \in {0, 2}, t \in {-1, 0, 1} } \cup { [op |-> "wait"] }
Abs(s) == s
Good(s) == s.fails <= s.jobs /\ s.turn \in 0..(s.n - 1)
=============================================================================
