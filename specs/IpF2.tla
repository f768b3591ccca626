-------------------------------- MODULE IpF2 ----------------------------------
EXTENDS IpF1
\* formatting and parsing are inverse; prefix lengths and contiguous masks correspond one to one
ASSUME \A m \in MasksV : LET q == Quad(Text(m)) IN q.ok /\ q.v = m /\ ~ q.pad
ASSUME \A n \in 0..32 : Cidr(MaskOf(n)) = {n} /\ MaskTxt(Num(n)).v = MaskOf(n)
ASSUME \A m \in MasksV : Cardinality(Cidr(m)) <= 1
===============================================================================
