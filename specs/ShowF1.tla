-------------------------------- MODULE ShowF1 --------------------------------
EXTENDS ShowF
Around(x) == { SubW(x, One), x, AddW(x, One), AddW(x, Shr(x, 1)), AddW(x, Shr(x, 7)), AddW(x, SubW(x, One)), MulW(x, W(1023)) }
SizesV == {Zero, One, W(1000), NotW(Zero)} \cup UNION { Around(Pow(u)) : u \in 0..6 }
D(n) == [i \in 1..n |-> (i * 23 + 9) % 256]
DatasV == { D(n) : n \in {0, 1, 7, 8, 9, 15, 16, 17, 40} }
TotalsV == { Zero, W(100), W(1536) }
IncsV == { Zero, W(1), W(50), W(2000) }
===============================================================================
