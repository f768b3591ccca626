-------------------------------- MODULE RandF2 --------------------------------
(* Explored alone: the specification against published values and laws.           *)
EXTENDS RandF1
S0 == { <<0, 0, \h12, \hD687>>, <<\hFFFF, \hFFFF, \hFFFF, \hFFFF>>, <<\h0123, \h4567, \h89AB, \hCDEF>>, One }
Inv(x) == \* inverse of z := z ^ (z >> 31)
  XorW(x, XorW(Shr(x, 31), Shr(x, 62)))
\* splitmix64 from 1234567 (published values)
ASSUME Outs("split", <<W(1234567)>>, 3) = << <<\h599E, \hD017, \hFB08, \hFC85>>, <<\h2C73, \hF084, \h5854, \h0FA5>>, <<\h883E, \hBCE5, \hA3F2, \h7C77>> >>
ASSUME \A x \in S0 : \A k \in 0..63 : Rotr(Rotl(x, k), k) = x /\ AddW(Shl(Shr(x, k), k), AndW(x, NotW(Shl(NotW(Zero), k)))) = x
ASSUME \A x \in S0, y \in S0 : AddW(SubW(x, y), y) = x /\ MulW(x, y) = MulW(y, x) /\ XorW(XorW(x, y), y) = x /\ AddW(AndW(x, y), OrW(x, y)) = AddW(x, y)
ASSUME \A x \in S0, y \in S0, z \in S0 : MulW(x, AddW(y, z)) = AddW(MulW(x, y), MulW(x, z))
ASSUME \A x \in S0 : \A k \in 0..63 : Shl(x, k) = MulW(x, Shl(One, k))
ASSUME \A x \in S0 : LET z == XorW(x, Shr(x, 31)) IN Inv(z) = x
===============================================================================
