------------------------------- MODULE DiagF1 -------------------------------
EXTENDS DiagF, FiniteSets
CfgV == { [prog |-> p] : p \in { <<0>>, <<>>, <<112>>, <<97, 47, 37, 115>> } }
TextV == { <<>>, <<97>>, <<10>>, <<97, 10>>, <<10, 10>>, <<97, 10, 98>>, <<37, 115>> }
ErrV == {0, 2, -22}
ErrS == {0, 1}
TextS == { <<>>, <<97>>, <<10>>, <<97, 10>> }
\* one line, never lost: with a text of one line and a name of one line, a message is one line
ASSUME \A d \in TextV, o \in {"warn", "error"}, er \in {0, 2, -22} :
         LET e == Ev(o, d, 1, 0, er, 0)
             n == Cardinality({i \in 1..Len(d) : d[i] = LF})
             t == <<112, 58, 32>> \o Chomp(d) \o Suff(e) \o <<LF>> IN
         /\ LineOk([prog |-> <<112>>, pend |-> <<>>], e, t)
         /\ ~LineOk([prog |-> <<112>>, pend |-> <<>>], e, SubSeq(t, 1, Len(t) - 1))
         /\ (n = 0 \/ (n = 1 /\ d[Len(d)] = LF)) => Cardinality({i \in 1..Len(t) : t[i] = LF}) = 1
==============================================================================
