------------------------------- MODULE HashFnF2 -------------------------------
(* The definitions against published values.                                       *)
EXTENDS HashFnF1
Hello == <<104, 101, 108, 108, 111>>
Foobar == <<102, 111, 111, 98, 97, 114>>
Abc == <<97, 98, 99>>
N15 == [i \in 1..15 |-> i - 1]
ASSUME Fnv32(<<>>) = <<0, 0, \h811C, \h9DC5>> /\ Fnv32(Foobar) = <<0, 0, \hBF9C, \hF968>>
ASSUME Fnv64(<<97>>) = <<\hAF63, \hDC4C, \h8601, \hEC8C>> /\ Fnv64(Foobar) = <<\h8594, \h4171, \hF739, \h67E8>>
ASSUME Sip(N15, <<\h0706, \h0504, \h0302, \h0100>>, <<\h0F0E, \h0D0C, \h0B0A, \h0908>>) = <<\hA129, \hCA61, \h49BE, \h45E5>>
ASSUME Sip(<<>>, <<\h0706, \h0504, \h0302, \h0100>>, <<\h0F0E, \h0D0C, \h0B0A, \h0908>>) = <<\h726F, \hDB47, \hDD0E, \h0E31>>
ASSUME Mm32(<<>>, One) = <<0, 0, \h514E, \h28B7>> /\ Mm32(<<>>, Zero) = Zero
ASSUME Mm32(Hello, Zero) = <<0, 0, \h248B, \hFA47>>
ASSUME Mm128b(Hello, Zero) = << <<\hCBD8, \hA7B3, \h41BD, \h9B02>>, <<\h5B1E, \h906A, \h48AE, \h1D19>> >>
ASSUME Xx32(<<>>, Zero) = <<0, 0, \h02CC, \h5D05>> /\ Xx32(Abc, Zero) = <<0, 0, \h32D1, \h53FF>>
ASSUME Xx64(<<>>, Zero) = <<\hEF46, \hDB37, \h51D8, \hE999>> /\ Xx64(Abc, Zero) = <<\h44BC, \h2CF5, \hAD77, \h0999>>
ASSUME City(<<>>, Zero) = C2
\* every byte counts: changing any one byte of inputs of these lengths changes every hash
Flip(q, i) == [q EXCEPT ![i] = (@ + 1) % 256]
ASSUME \A f \in Fns : \A n \in {1, 2, 3, 4, 6, 7, 9, 13, 16, 23, 31, 33} : \A i \in {1, n \div 2 + 1, n} :
  LET q == Pat(n, 3) IN Hash(f, q, One, Zero) # Hash(f, Flip(q, i), One, Zero)
===============================================================================
