-------------------------------- MODULE SysRandF --------------------------------
(* Random bytes from the system: passed on whole and in order, each only once,    *)
(* however piecemeal they arrive; an error is reported as such.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Lens, Steps, MaxSteps
\* opening: 0 works, else it fails with that number
Cfgs == { [open |-> 0], [open |-> 2] }
InitState(c) == [pos |-> 0, open |-> c.open]
\* the system's i-th byte
Byte(i) == (i * 7 + (i \div 256) * 31 + 3) % 256
Bytes(a, n) == [i \in 1..n |-> Byte(a + i - 1)]
\* steps: what successive reads do: k > 0 at most k bytes, -4 interrupted, other -k: error k;
\* afterwards whatever is asked for.  <<bytes taken, error>>
RECURSIVE Take(_, _, _)
Take(n, st, got) ==
  IF n = got THEN <<got, 0>>
  ELSE IF st = <<>> THEN <<n, 0>>
  ELSE LET x == Head(st) IN
       IF x = -4 THEN Take(n, Tail(st), got)
       ELSE IF x < 0 THEN <<got, -x>>
       ELSE Take(n, Tail(st), IF got + x < n THEN got + x ELSE n)
Num(e) == IF e.op \in {"long", "clong"} THEN 8 ELSE e.n
After(s, e) == IF s.open # 0 THEN s ELSE [s EXCEPT !.pos = @ + Take(Num(e), e.st, 0)[1]]
Ok(s, e) ==
  IF s.open # 0 THEN e.err = s.open /\ e.out = <<>> /\ e.fds = 0
  ELSE LET t == Take(Num(e), e.st, 0) IN
       /\ e.err = t[2] /\ e.past = 0 /\ e.fds = (IF e.op \in {"cbits", "clong"} THEN e.fds ELSE 0)
       /\ e.err = 0 => e.out = Bytes(s.pos, Num(e)) /\ (e.op \in {"bits", "cbits"} => e.same = 1)
SeqsOf(S, n) == UNION { [1..k -> S] : k \in 0..n }
Events(s) == { [op |-> "bits", n |-> n, st |-> st] : n \in Lens, st \in SeqsOf(Steps, MaxSteps) } \cup { [op |-> "long", st |-> st] : st \in SeqsOf(Steps, MaxSteps) }
             \cup (IF s.open # 0 THEN {} ELSE { [op |-> "cbits", n |-> n, st |-> <<>>] : n \in Lens } \cup { [op |-> "clong", st |-> <<3>>] })
Abs(s) == [p |-> s.pos % 5, o |-> s.open]
Good(s) == s.pos >= 0
=================================================================================
