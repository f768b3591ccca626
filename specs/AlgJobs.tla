------------------------------ MODULE AlgJobs ------------------------------
(* Job manager (src/posix/job.c: one shared queue) and work manager           *)
(* (src/posix/work.c: a queue per worker, taking turns) on top of bounded     *)
(* blocking queues that are atomic (AlgSyncq).  After the submissions one     *)
(* thread asks for the end: a nil item per worker, an acknowledgement from    *)
(* each, and the sum of their failure counts.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,          \* workers
          Cap,        \* capacity of a queue
          Shared,     \* TRUE: job manager, FALSE: work manager
          Prog,       \* submitter -> sequence of [j |-> job, w |-> worker or -1 (turns)]; job >= 100 fails
          Quit,       \* a worker leaves at its first failure (a seeded mistake)
          LateTurn    \* take the turn without the lock (a seeded mistake)
VARIABLES q, turn, pc, k, loc, wk, run, fails, acks, wpc, wi, result
vars == <<q, turn, pc, k, loc, wk, run, fails, acks, wpc, wi, result>>
S == DOMAIN Prog
W == 0..(N - 1)
Qs == IF Shared THEN {0} ELSE W
QOf(w) == IF Shared THEN 0 ELSE w
Nil == -1

Init == /\ q = [i \in Qs |-> <<>>] /\ turn = 0
        /\ pc = [s \in S |-> "next"] /\ k = [s \in S |-> 1] /\ loc = [s \in S |-> 0]
        /\ wk = [w \in W |-> [s |-> "get", j |-> 0]]
        /\ run = [w \in W |-> <<>>] /\ fails = [w \in W |-> 0]
        /\ acks = 0 /\ wpc = "start" /\ wi = 0 /\ result = -1

Cur(s) == Prog[s][k[s]]
\* submit: choose the worker, then enter its queue
Choose(s) == /\ pc[s] = "next" /\ k[s] <= Len(Prog[s])
             /\ IF Shared THEN loc' = [loc EXCEPT ![s] = 0] /\ UNCHANGED turn
                ELSE IF Cur(s).w \in W THEN loc' = [loc EXCEPT ![s] = Cur(s).w] /\ UNCHANGED turn
                ELSE loc' = [loc EXCEPT ![s] = turn] /\ turn' = IF LateTurn THEN turn ELSE (turn + 1) % N
             /\ pc' = [pc EXCEPT ![s] = IF LateTurn /\ ~Shared /\ Cur(s).w \notin W THEN "turn" ELSE "put"]
             /\ UNCHANGED <<q, k, wk, run, fails, acks, wpc, wi, result>>
Late(s) == /\ pc[s] = "turn" /\ turn' = (loc[s] + 1) % N /\ pc' = [pc EXCEPT ![s] = "put"]
           /\ UNCHANGED <<q, k, loc, wk, run, fails, acks, wpc, wi, result>>
Put(s) == /\ pc[s] = "put" /\ Len(q[loc[s]]) < Cap
          /\ q' = [q EXCEPT ![loc[s]] = Append(@, Cur(s).j)]
          /\ pc' = [pc EXCEPT ![s] = "next"] /\ k' = [k EXCEPT ![s] = @ + 1]
          /\ UNCHANGED <<turn, loc, wk, run, fails, acks, wpc, wi, result>>
Submitted == \A s \in S : k[s] > Len(Prog[s])

\* worker
Get(w) == /\ wk[w].s = "get" /\ q[QOf(w)] # <<>>
          /\ q' = [q EXCEPT ![QOf(w)] = Tail(@)]
          /\ wk' = [wk EXCEPT ![w] = IF Head(q[QOf(w)]) = Nil THEN [s |-> "leave", j |-> 0] ELSE [s |-> "run", j |-> Head(q[QOf(w)])]]
          /\ UNCHANGED <<turn, pc, k, loc, run, fails, acks, wpc, wi, result>>
Run(w) == /\ wk[w].s = "run"
          /\ run' = [run EXCEPT ![w] = Append(@, wk[w].j)]
          /\ fails' = [fails EXCEPT ![w] = @ + (IF wk[w].j >= 100 THEN 1 ELSE 0)]
          /\ wk' = [wk EXCEPT ![w] = [s |-> IF Quit /\ wk[w].j >= 100 THEN "leave" ELSE "get", j |-> 0]]
          /\ UNCHANGED <<q, turn, pc, k, loc, acks, wpc, wi, result>>
Leave(w) == /\ wk[w].s = "leave" /\ acks' = acks + 1
            /\ wk' = [wk EXCEPT ![w].s = "gone"]
            /\ UNCHANGED <<q, turn, pc, k, loc, run, fails, wpc, wi, result>>

\* wait, called after the last submission
WStart == /\ wpc = "start" /\ Submitted /\ wpc' = "flag" /\ wi' = 0
          /\ UNCHANGED <<q, turn, pc, k, loc, wk, run, fails, acks, result>>
WFlag == /\ wpc = "flag" /\ wi < N /\ Len(q[QOf(wi)]) < Cap
         /\ q' = [q EXCEPT ![QOf(wi)] = Append(@, Nil)]
         /\ IF Shared THEN wpc' = "ack" /\ UNCHANGED wi         \* job manager: flag one, wait for one
            ELSE IF wi + 1 = N THEN wpc' = "ack" /\ wi' = 0 ELSE wpc' = wpc /\ wi' = wi + 1
         /\ UNCHANGED <<turn, pc, k, loc, wk, run, fails, acks, result>>
WAck == /\ wpc = "ack" /\ acks > 0 /\ acks' = acks - 1
        /\ wi' = wi + 1
        /\ wpc' = IF wi + 1 = N THEN "join" ELSE IF Shared THEN "flag" ELSE "ack"
        /\ UNCHANGED <<q, turn, pc, k, loc, wk, run, fails, result>>
Sum == LET F[n \in 0..N] == IF n = 0 THEN 0 ELSE F[n - 1] + fails[n - 1] IN F[N]
WJoin == /\ wpc = "join" /\ \A w \in W : wk[w].s = "gone"
         /\ result' = Sum /\ wpc' = "end"
         /\ UNCHANGED <<q, turn, pc, k, loc, wk, run, fails, acks, wi>>

Next == \/ \E s \in S : Choose(s) \/ Late(s) \/ Put(s)
        \/ \E w \in W : Get(w) \/ Run(w) \/ Leave(w)
        \/ WStart \/ WFlag \/ WAck \/ WJoin

Jobs == UNION { { Prog[s][i].j : i \in 1..Len(Prog[s]) } : s \in S }
Count(j) == LET C[n \in 0..N] == IF n = 0 THEN 0 ELSE C[n - 1] + Cardinality({ i \in 1..Len(run[n - 1]) : run[n - 1][i] = j }) IN C[N]
OnceAtMost == \A j \in Jobs : Count(j) <= 1
Drained == wpc = "end" => /\ \A j \in Jobs : Count(j) = 1
                          /\ result = Cardinality({ j \in Jobs : j >= 100 })
                          /\ \A i \in Qs : q[i] = <<>>
\* jobs a submitter sends to one worker run there, in the order they were sent
InOrder == Shared \/ \A s \in S : \A w \in W :
             LET mine == SelectSeq(run[w], LAMBDA j : \E i \in 1..Len(Prog[s]) : Prog[s][i].j = j)
                 rank(j) == CHOOSE i \in 1..Len(Prog[s]) : Prog[s][i].j = j IN
             \A i \in 1..(Len(mine) - 1) : rank(mine[i]) < rank(mine[i + 1])
Routed == Shared \/ \A s \in S : \A i \in 1..Len(Prog[s]) : \A w \in W :
             (Prog[s][i].w \in W /\ Prog[s][i].w # w) => \A x \in 1..Len(run[w]) : run[w][x] # Prog[s][i].j
\* the turns are taken one by one
Balanced == (wpc = "end" /\ ~Shared) =>
              LET Free(w) == Cardinality({ x \in 1..Len(run[w]) : \E s \in S : \E i \in 1..Len(Prog[s]) : Prog[s][i].j = run[w][x] /\ Prog[s][i].w \notin W })
              IN \A w, v \in W : Free(w) - Free(v) \in {-1, 0, 1}
NoStuck == (~ENABLED Next) => wpc = "end"
=============================================================================
