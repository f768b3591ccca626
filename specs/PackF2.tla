-------------------------------- MODULE PackF2 --------------------------------
(* exploration: the round-trip theorem is checked once, on every instance       *)
EXTENDS PackF1
ASSUME RoundTrip
===============================================================================
