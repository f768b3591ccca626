-------------------------------- MODULE DaemonF --------------------------------
(* Becoming a background process.  Processes: 1 the caller, 2 its child, 3 the    *)
(* grandchild; each step of each process is a transition; the one that returns    *)
(* from the call is the only one left, and cut off from the caller's terminal.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Pwds, Fails, Masks, Closed
Cfgs == { [x |-> 0] }
InitState(c) == [x |-> 0]
\* the processes: leader/session, and how each ended ("run", "exit", "return")
P0 == [ alive |-> {1}, sess |-> [p \in {1, 2, 3} |-> 0], done |-> [p \in {1, 2, 3} |-> "none"], cwd |-> "old", std |-> "old" ]
Fork(q, from, to) == [q EXCEPT !.alive = (@ \ {from}) \cup {to}, !.done[from] = "exit", !.sess[to] = q.sess[from]]
\* the process that returns, and the world then
Outcome(fail) ==
  IF fail = 1 THEN [P0 EXCEPT !.done[1] = "failed"]
  ELSE LET a == Fork(P0, 1, 2)
           b == [a EXCEPT !.sess[2] = 2] IN
       IF fail = 2 THEN [b EXCEPT !.done[2] = "failed"]
       ELSE LET d == Fork(b, 2, 3) IN [d EXCEPT !.done[3] = "ok", !.cwd = "new", !.std = "null"]
Returns(o) == CHOOSE p \in o.alive : TRUE
Ok(s, e) ==
  LET o == Outcome(e.fail)
      p == Returns(o) IN
  /\ e.reports = 1                                      \* exactly one process returns
  /\ e.first = (IF p = 1 THEN 7 ELSE 0)                 \* the caller's process ended well (7: it returned)
  /\ e.same = (IF p = 1 THEN 1 ELSE 0)
  /\ e.extra = 0                                        \* no further open files
  /\ IF e.fail # 0 THEN e.r = -11
     ELSE /\ e.r = 0 /\ e.leader = 0 /\ e.oldsess = 0
          /\ e.cwd = (IF e.pwd = <<>> THEN <<47, 116, 109, 112>> ELSE e.full)
          /\ e.um = 18 /\ e.null = <<1, 1, 1>>
After(s, e) == s
Events(s) == { [op |-> "go", pwd |-> p, fail |-> f, um |-> m, closed |-> c] : p \in Pwds, f \in Fails, m \in Masks, c \in Closed }
Abs(s) == s
\* whoever is left when all went well neither leads a session nor belongs to the caller's
Good(s) == LET o == Outcome(0) IN o.alive = {3} /\ o.sess[3] # 3 /\ o.sess[3] # o.sess[1] /\ \A f \in Fails : Cardinality(Outcome(f).alive) = 1
================================================================================
