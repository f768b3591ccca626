------------------------------- MODULE WordOpF1 -------------------------------
EXTENDS WordOpF
Edge == UNION { {P2(k), SubW(P2(k), One), AddW(P2(k), One)} : k \in 0..63 } \cup {Zero, NotW(Zero), <<258, 772, 1286, 1800>>, <<65279, 56027, 35243, 3876>>}
Few == { W(n) : n \in {0, 1, 2, 3, 24, 59, 60, 1000, 1000000} } \cup UNION { {P2(k), SubW(P2(k), One)} : k \in {7, 16, 31, 32, 62, 63} }
ASSUME \A x \in Edge, m \in {1, 2, 3} : /\ Conv("L", m + 3, Conv("L", m, x)) = LowB(x, Mac[m][1])
                                        /\ Conv("B", m + 9, Conv("B", m + 6, x)) = LowB(x, Mac[m][1])
                                        /\ Conv("L", m, x) = Conv("B", m + 6, x)
ASSUME \A x \in Edge, h \in {"L", "B"} : /\ Dec(h, 8, Enc(h, 8, x)) = x /\ Dec(h, 4, Enc(h, 4, x)) = LowB(x, 4) /\ Dec(h, 2, Enc(h, 2, x)) = LowB(x, 2)
ASSUME \A x \in Edge : Swap(Swap(x, 8), 8) = x
===============================================================================
