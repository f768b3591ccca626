--------------------------------- MODULE CdbF2 ---------------------------------
(* Theorem: lookups in the file of a list of records find exactly the records. *)
EXTENDS CdbF1
ASSUME \A c \in Cfgs : LET R == WithHash(c.R)
                           f == File(R, c.load) IN \A k \in Keys : Lookup(f, k, HashOf(k)) = Find(R, k)
===============================================================================
