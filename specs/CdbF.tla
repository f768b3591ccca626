--------------------------------- MODULE CdbF ---------------------------------
(* A constant database: 256 index entries, the records, and hash tables with     *)
(* open addressing.  What a lookup in any file yields (Lookup), and which file   *)
(* belongs to a list of records (File).                                          *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Keys, Vals, MaxRecs, Loads
Huge == 536870912               \* every number of 2^29 or more: beyond the end of any file
U32(f, o) == LET b(i) == f[o + i] IN IF b(4) >= 32 THEN Huge ELSE b(1) + 256 * b(2) + 65536 * b(3) + 16777216 * b(4)
Rng(q, a, b) == IF a > b THEN <<>> ELSE SubSeq(q, a, b)
\* the part of a hash behind its first byte, and the hash of a key as four bytes:
\* the keys of the model begin with their hash
Upper(h) == h[2] + 256 * h[3] + 65536 * h[4]
HashOf(k) == [i \in 1..4 |-> IF i <= Len(k) THEN k[i] ELSE 0]
Inside(f, o, n) == o + n <= Len(f)
\* <<"none">>, <<"damaged">> or <<"found", value>>
RECURSIVE Probe(_, _, _, _, _, _, _)
Probe(f, off, len, slot, n, k, h) ==
  IF n = 0 THEN <<"none">>
  ELSE LET p == off + 8 * slot IN
       IF ~Inside(f, p, 8) THEN <<"damaged">>
       ELSE IF Rng(f, p + 5, p + 8) = <<0, 0, 0, 0>> THEN <<"none">>
       ELSE LET next == Probe(f, off, len, IF slot + 1 >= len THEN 0 ELSE slot + 1, n - 1, k, h)
                r == U32(f, p + 4) IN
            IF Rng(f, p + 1, p + 4) # h THEN next
            ELSE IF ~Inside(f, r, 8) THEN <<"damaged">>
            ELSE LET kl == U32(f, r)
                     vl == U32(f, r + 4) IN
                 IF kl # Len(k) THEN next
                 ELSE IF ~Inside(f, r + 8, kl + vl) THEN <<"damaged">>
                 ELSE IF Rng(f, r + 9, r + 8 + kl) # k THEN next
                 ELSE <<"found", Rng(f, r + 9 + kl, r + 8 + kl + vl)>>
Lookup(f, k, h) ==
  LET off == U32(f, 8 * h[1])
      len == U32(f, 8 * h[1] + 4) IN
  IF len = 0 THEN <<"none">> ELSE Probe(f, off, len, Upper(h) % len, len, k, h)

\* ---- the file of a list of records <<key, value, hash>>; load: slots per record
LE(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
RECURSIVE Place(_, _, _, _)
Place(t, slot, h, pos) == IF t[slot + 1] = <<>> THEN [t EXCEPT ![slot + 1] = h \o LE(pos)]
                          ELSE Place(t, (slot + 1) % Len(t), h, pos)
Empty8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
File(R, load) ==
  LET body == FoldLeft(LAMBDA a, r : [b |-> a.b \o LE(Len(r[1])) \o LE(Len(r[2])) \o r[1] \o r[2], p |-> Append(a.p, 2048 + Len(a.b))], [b |-> <<>>, p |-> <<>>], R)
      Of(t) == SelectSeq([i \in 1..Len(R) |-> i], LAMBDA i : R[i][3][1] = t)
      Table(t) == LET I == Of(t)
                      n == load * Len(I) IN
                  FoldLeft(LAMBDA a, i : Place(a, Upper(R[i][3]) % n, R[i][3], body.p[i]), [j \in 1..n |-> <<>>], I)
      \* only tables with records
      all == FoldLeft(LAMBDA a, t : IF \A i \in 1..Len(R) : R[i][3][1] # t THEN [a EXCEPT !.idx = @ \o LE(2048 + Len(body.b) + Len(a.b)) \o LE(0)]
                                    ELSE LET T == Table(t) IN
                                         [idx |-> a.idx \o LE(2048 + Len(body.b) + Len(a.b)) \o LE(Len(T)),
                                          b |-> a.b \o FoldLeft(LAMBDA x, s : x \o (IF s = <<>> THEN Empty8 ELSE s), <<>>, T)],
                      [idx |-> <<>>, b |-> <<>>], [t \in 1..256 |-> t - 1]) IN
  all.idx \o body.b \o all.b
\* ---- the database as a map: the first record of a key counts
Find(R, k) == LET I == { i \in 1..Len(R) : R[i][1] = k } IN IF I = {} THEN <<"none">> ELSE <<"found", R[CHOOSE i \in I : \A j \in I : i <= j][2]>>

Cfgs == { [R |-> R, load |-> l] : R \in UNION { [1..n -> Keys \X Vals] : n \in 0..MaxRecs }, l \in Loads }
WithHash(R) == [i \in 1..Len(R) |-> <<R[i][1], R[i][2], HashOf(R[i][1])>>]
InitState(c) == IF "file" \in DOMAIN c THEN [f |-> c.file, R |-> c.R, intact |-> c.intact = 1]
                ELSE [f |-> File(WithHash(c.R), c.load), R |-> WithHash(c.R), intact |-> TRUE]
Evs(s) == { [op |-> "find", k |-> k] : k \in Keys }
Events(s) == Evs(s)
Same(e, x) == IF x[1] = "found" THEN e.r = Len(x[2]) /\ e.o = x[2] ELSE e.r < 0 /\ (x[1] = "none" => e.r = -2)
Ok(s, e) ==
  CASE e.op = "open" -> IF Len(s.f) < 2048 THEN e.r < 0 ELSE e.r = 0
    [] e.op = "find" -> IF s.intact THEN Same(e, Find(s.R, e.k))
                        ELSE LET x == Lookup(s.f, e.k, HashOf(e.k)) IN
                             Same(e, x) \/ (e.r < 0 /\ x[1] = "damaged")
After(s, e) == s
Abs(s) == s.R
Good(s) == TRUE
===============================================================================
