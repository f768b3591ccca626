-------------------------------- MODULE ErrTxtF1 --------------------------------
EXTENDS ErrTxtF
Xs(n) == [i \in 1..n |-> 97 + (i % 26)]
NumsV == 0..140 \cup {1000, 100000, 2147483647}
TextsV == { <<>>, <<97>>, <<37, 115>>, Xs(40), Xs(1000), Xs(1022), Xs(1023), Xs(1024), Xs(3000) }
FewV == {0, 2, 4, 13, 100000}
\* every cut is the beginning of the whole, and only one cut of a length exists
ASSUME \A w \in TextsV, n \in 0..3000 : n <= Len(w) /\ (n = Len(w) \/ n >= 1000) <=> n <= Len(w) /\ Cut(w, SubSeq(w, 1, n))
=================================================================================
