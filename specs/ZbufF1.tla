-------------------------------- MODULE ZbufF1 --------------------------------
EXTENDS ZbufF
CONSTANTS Alpha, DLen, PLen, TakeKinds, DefKinds
Strs(A, n) == UNION { [1..k -> A] : k \in 0..n }
Rep(c, n) == [i \in 1..n |-> c]
Mix(n) == [i \in 1..n |-> (i * i * 7 + (i \div 3)) % 251]
DatasV == Strs(Alpha, DLen) \cup { Rep(97, 40), Mix(30) }
PlainsV == Strs(Alpha, PLen) \cup { Rep(98, 300), Mix(40) }
TakesV == TakeKinds
TK == { <<>>, <<1>>, <<3, 1>>, <<2, 0>>, <<-1>> }
TK0 == { <<>> }
DefectsV == DefKinds
D0 == { <<0, -1, 0>> }
D1 == { <<0, -1, 0>>, <<1, -1, 0>>, <<5, -1, 0>>, <<0, -1, 3>> }
===============================================================================
