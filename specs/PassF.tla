--------------------------------- MODULE PassF ---------------------------------
(* Reading passwords: from a terminal (without echo, with prompts, the terminal   *)
(* left as it was) or from other input, asked twice on request.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS CfgSet, Lines, MaxLines
NL == 10
CR == 13
\* how: 0 other input, 1 standard input is a terminal, 2 the terminal opened for it,
\* 3 no terminal could be opened: standard input, which is not one.
\* d: other input; twice: confirmation asked for
Cfgs == CfgSet
InitState(c) == [how |-> c.how, twice |-> c.twice, rest |-> c.d]
Tty(s) == s.how \in {1, 2}
\* the first line with its line end, and what follows
RECURSIVE Upto(_, _)
Upto(d, i) == IF i >= Len(d) \/ d[i] = NL THEN i ELSE Upto(d, i + 1)
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
Line(d) == Rng(d, 1, Upto(d, 1))
Strip(l) == LET a == IF l # <<>> /\ l[Len(l)] = NL THEN Rng(l, 1, Len(l) - 1) ELSE l IN
            IF a # <<>> /\ a[Len(a)] = CR THEN Rng(a, 1, Len(a) - 1) ELSE a
\* <<outcome, password, unread input, passwords asked for, confirmations asked for>>
RECURSIVE Ask(_, _, _, _)
Ask(d, twice, n, q) ==
  IF d = <<>> THEN <<"end", <<>>, <<>>, n, q>>
  ELSE LET a == Line(d)
           d1 == Rng(d, Len(a) + 1, Len(d)) IN
       IF ~twice THEN <<"ok", Strip(a), d1, n, q>>
       ELSE IF d1 = <<>> THEN <<"end", <<>>, <<>>, n, q + 1>>
       ELSE LET b == Line(d1)
                d2 == Rng(d1, Len(b) + 1, Len(d1)) IN
            IF Strip(a) = Strip(b) THEN <<"ok", Strip(a), d2, n, q + 1>>
            ELSE IF n = 3 THEN <<"wrong", <<>>, d2, n, q + 1>> ELSE Ask(d2, twice, n + 1, q + 1)
Outcome(s, e) == Ask(IF Tty(s) THEN e.d ELSE s.rest, s.twice = 1, 1, 0)
Ok(s, e) ==
  LET x == Outcome(s, e) IN
  /\ CASE x[1] = "ok" -> e.r = 0 /\ e.o = x[2]
       [] x[1] = "wrong" -> e.r = -22
       [] OTHER -> e.r < 0
  /\ e.prompts = (IF Tty(s) THEN <<x[4], x[5]>> ELSE <<0, 0>>)
  \* nothing typed appears on the terminal but line ends, and it is left as it was
  /\ \A i \in 1..Len(e.echo) : e.echo[i] \in {NL, CR}
  /\ e.same = 1 /\ e.open = 0
After(s, e) == IF Tty(s) THEN s ELSE [s EXCEPT !.rest = Outcome(s, e)[3]]
Texts == UNION { [1..n -> Lines] : n \in 0..MaxLines }
Flat(t) == FoldLeft(LAMBDA a, l : a \o l, <<>>, t)
Events(s) == IF Tty(s) THEN { [op |-> "read", d |-> Flat(t)] : t \in Texts } ELSE { [op |-> "read", d |-> <<>>] }
Abs(s) == s
Good(s) == TRUE
===============================================================================
