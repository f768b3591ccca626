-------------------------------- MODULE IdF1 ----------------------------------
EXTENDS IdF
Z(n, v) == [i \in 1..n |-> v]
IdsV == { [i \in 1..16 |-> IF i = k THEN v ELSE d] : k \in 1..16, v \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 255}, d \in {0, 255} }
IdsP == { [i \in 1..16 |-> IF i = k THEN v ELSE d] : k \in 1..16, v \in {0, 1, 128}, d \in {0, 255} }
Base == UText([i \in 1..16 |-> i * 15])
LBase == LText([i \in 1..16 |-> i * 15])
UTextsV == { Base, Z(36, 48), Z(36, 45), SubSeq(Base, 1, 35), Base \o <<48>>, <<>> } \cup { [Base EXCEPT ![i] = c] : i \in 1..36, c \in {45, 48, 102, 103, 71, 255, 32} }
LTextsV == { LBase, Z(26, 48), Z(26, 90), SubSeq(LBase, 1, 25), LBase \o <<48>>, <<>> } \cup { [LBase EXCEPT ![i] = c] : i \in 1..26, c \in {48, 55, 56, 57, 73, 76, 79, 85, 90, 117, 104, 255, 45} }
TimesV == { <<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 256>>, <<0, 1, 0>>, <<0, 256, 0>>, <<1, 0, 0>>, <<256, 0, 0>>, <<399, 65535, 65535>>, <<0, 255, 65535>> }
===============================================================================
