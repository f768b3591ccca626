-------------------------------- MODULE DiagF --------------------------------
(* Diagnostics: every message becomes one line on the standard error stream,   *)
(* behind everything the program had written to its standard output before it, *)
(* and fatal messages end the program with the status asked for.               *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS CfgSet, Texts, Errs, Stats, Reps, MaxPend
LF == 10
Cfgs == CfgSet
\* prog: name of the program, <<0>>: none set.  pend: written to the standard
\* output but not seen by anyone yet.
InitState(c) == [prog |-> c.prog, pend |-> <<>>]
Ev(o, d, k, n, e, x) == [op |-> o, d |-> d, rep |-> k, fmt |-> n, err |-> e, status |-> x]
Events(s) == (IF Len(s.pend) < MaxPend THEN {Ev("print", d, 1, 0, 0, 0) : d \in Texts} ELSE {})
             \cup {Ev(o, d, k, 0, 0, 0) : o \in {"warn", "die"}, d \in Texts, k \in Reps}
             \cup {Ev("error", d, k, 0, e, x) : d \in Texts, k \in Reps, e \in Errs, x \in Stats}
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n % 10)>>
Text(e) == (IF e.fmt = 0 THEN <<>> ELSE Dec(e.fmt) \o <<58, 32>>) \o [i \in 1..(e.rep * Len(e.d)) |-> e.d[((i - 1) % Len(e.d)) + 1]]
Pref(s) == IF s.prog = <<0>> THEN <<>> ELSE s.prog \o <<58, 32>>
Chomp(t) == IF t # <<>> /\ t[Len(t)] = LF THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Words(n) == CASE n = 1 -> <<79, 112, 101, 114, 97, 116, 105, 111, 110, 32, 110, 111, 116, 32, 112, 101, 114, 109, 105, 116, 116, 101, 100>>
              [] n = 2 -> <<78, 111, 32, 115, 117, 99, 104, 32, 102, 105, 108, 101, 32, 111, 114, 32, 100, 105, 114, 101, 99, 116, 111, 114, 121>>
              [] n = 22 -> <<73, 110, 118, 97, 108, 105, 100, 32, 97, 114, 103, 117, 109, 101, 110, 116>>
Abs1(n) == IF n < 0 THEN 0 - n ELSE n
Suff(e) == IF e.op # "error" \/ e.err = 0 THEN <<>> ELSE <<58, 32>> \o Words(Abs1(e.err)) \o <<32, 91>> \o Dec(Abs1(e.err)) \o <<93>>
\* what is shown of a text too long to be shown completely: at least this much
Shown == 2000
Status(e) == CASE e.op = "die" -> 2 [] e.op = "error" /\ e.status # 0 -> e.status + 1 [] OTHER -> 0
LineOk(s, e, t) ==
  LET x == Chomp(Text(e))
      p == s.pend \o Pref(s)
      q == Suff(e) \o <<LF>> IN
  IF Len(x) <= Shown THEN t = p \o x \o q
  ELSE /\ Len(t) >= Len(p) + Shown + Len(q)
       /\ IsPrefix(p, t) /\ IsSuffix(q, t)
       /\ LET m == SubSeq(t, Len(p) + 1, Len(t) - Len(q)) IN IsPrefix(m, x)
Ok(s, e) == IF e.op = "print" THEN e.t = <<>> /\ e.x = 0
            ELSE e.x = Status(e) /\ LineOk(s, e, e.t)
After(s, e) == [s EXCEPT !.pend = IF e.op = "print" THEN @ \o Text(e) ELSE <<>>]
Abs(s) == s
Good(s) == Len(s.pend) <= MaxPend + 2
===============================================================================
