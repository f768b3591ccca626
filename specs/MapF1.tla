---------------------------------- MODULE MapF1 ----------------------------------
EXTENDS MapF
C(n, at, v) == [n |-> n, at |-> at, v |-> v]
SmallV == { C(-1, <<>>, <<>>), C(0, <<>>, <<>>), C(5000, <<0, 4096, 4999>>, <<1, 2, 3>>), C(8192, <<4095, 8191>>, <<9, 8>>) }
OneV == { C(5000, <<0, 4096, 4999>>, <<1, 2, 3>>) }
==================================================================================
