--------------------------------- MODULE PassF1 ---------------------------------
EXTENDS PassF
LinesV == { <<97, 10>>, <<97, 98, 10>>, <<10>> }
LinesP == { <<97, 10>>, <<97, 13, 10>>, <<10>>, <<13, 10>> }
Ends == { <<>>, <<97>>, <<13>>, <<98>> }
TtyV == { [how |-> h, twice |-> t, d |-> <<>>] : h \in {1, 2}, t \in {0, 1} }
PipeV == { [how |-> h, twice |-> t, d |-> Flat(x) \o y] : h \in {0, 3}, t \in {0, 1}, x \in Texts, y \in Ends }
\* the same password twice in a row is always accepted, whatever was wrong before
ASSUME \A a, b \in LinesP : LET x == Ask(a \o b \o a \o a \o <<120>>, TRUE, 1, 0) IN
         IF Strip(a) = Strip(b) THEN x[1] = "ok" /\ x[2] = Strip(a) /\ x[3] = a \o a \o <<120>> ELSE x[1] = "ok" /\ x[2] = Strip(a) /\ x[3] = <<120>> /\ x[4] = 2 
===============================================================================
