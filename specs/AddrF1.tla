---------------------------------- MODULE AddrF1 ----------------------------------
EXTENDS AddrF
Lo == <<108, 111>>
Eth == <<101, 116, 104, 48>>
Long == [i \in 1..15 |-> 97 + i]
I(nm, fam, a, fl) == [nm |-> nm, fam |-> fam, a |-> a, fl |-> fl]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<Len(Head(q).nm)>> \o Head(q).nm \o <<Head(q).fam, Head(q).a, Head(q).fl>> \o Flat(Tail(q))
Cf(q) == [ifs |-> q, t |-> Flat(q)]
Items == { I(Lo, 2, 1, 73), I(Lo, 10, 1, 73), I(Lo, 0, 0, 0), I(Eth, 17, 4, 1), I(Eth, 2, 5, 1), I(Eth, 2, 6, 1), I(Long, 10, 7, 65) }
CfgsV == { Cf(q) : q \in UNION { [1..n -> Items] : n \in 0..3 } }
FewV == { Cf(<<>>), Cf(<<I(Lo, 2, 1, 73), I(Eth, 17, 4, 1), I(Long, 10, 7, 65), I(Eth, 2, 5, 1), I(Lo, 10, 1, 73), I(Eth, 10, 6, 1)>>) }
NamesV == { Lo, Eth, Long, Long \o <<46, 120>>, Long \o <<120>>, <<>>, <<42>>, <<49, 48, 46, 49, 46, 50, 46, 51>>, <<104>>, <<101, 116, 104>> }
AnswersV == { [g |-> <<>>, rc |-> 0, er |-> 0], [g |-> <<2, 3, 10, 4, 2, 9>>, rc |-> 0, er |-> 0], [g |-> <<>>, rc |-> -2, er |-> 0], [g |-> <<>>, rc |-> -3, er |-> 11], [g |-> <<>>, rc |-> -11, er |-> 5], [g |-> <<>>, rc |-> -10, er |-> 12] }
OneName == { Lo }
MasksV == 0..7
Mask2 == { 0, 4 }
NoA == { [g |-> <<>>, rc |-> 0, er |-> 0] }
\* every address of a wanted kind is found under exactly one interface
ASSUME \A c \in FewV, m \in MasksV : LET q == c.ifs IN
  \A i \in 1..Len(q) : Wanted(q[i].fam, m) => \E n \in NamesOf(q, m) : Count(Of(q, n, m), Entry(q[i].fam, q[i].a, q[i].fl)) > 0
===================================================================================
