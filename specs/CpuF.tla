--------------------------------- MODULE CpuF ----------------------------------
(* Binding threads to processors.  The scheduler keeps for every thread the set    *)
(* of processors it may run on; asking for one that does not exist is refused and  *)
(* changes nothing.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Online, Threads, Asked
Cfgs == { [n |-> n] : n \in Online }
InitState(c) == [n |-> c.n, mask |-> [t \in Threads |-> 0..c.n - 1]]
Exists(s, cpu) == cpu \in 0..s.n - 1
Bind(s, t, cpu) == IF Exists(s, cpu) THEN [s EXCEPT !.mask[t] = {cpu}] ELSE s
\* the process call speaks for the thread that makes it; whether the others follow is left open
Seen(s, e) == [t \in Threads |-> { e.masks[i] - 10000 * t : i \in {j \in DOMAIN e.masks : e.masks[j] \div 10000 = t} }]
Ok(s, e) ==
  CASE e.op = "avail" -> e.ret = s.n
    [] e.op = "process" ->
         /\ IF Exists(s, e.cpu) THEN e.ret = 0 ELSE e.ret = -22
         /\ LET z == Seen(s, e) w == Bind(s, e.t, e.cpu) IN z[e.t] = w.mask[e.t] /\ \A t \in Threads : z[t] \in {w.mask[t], w.mask[e.t]}
    [] e.op = "thread" -> Seen(s, e) = Bind(s, e.who, e.cpu).mask
    [] e.op = "mine" -> Seen(s, e) = Bind(s, e.t, e.cpu).mask
After(s, e) ==
  CASE e.op = "process" -> IF "masks" \in DOMAIN e THEN [s EXCEPT !.mask = Seen(s, e)] ELSE Bind(s, e.t, e.cpu)
    [] e.op = "thread" -> Bind(s, e.who, e.cpu)
    [] e.op = "mine" -> Bind(s, e.t, e.cpu)
    [] OTHER -> s
Events(s) ==
  { [op |-> "avail"] }
  \cup { [op |-> o, t |-> t, cpu |-> a] : o \in {"process", "mine"}, t \in Threads, a \in Asked }
  \cup { [op |-> "thread", t |-> t, who |-> w, cpu |-> a] : t \in Threads, w \in Threads, a \in Asked }
Abs(s) == s
\* no thread is ever left without a processor
Good(s) == \A t \in Threads : s.mask[t] # {} /\ s.mask[t] \subseteq 0..s.n - 1
================================================================================
