------------------------------ MODULE Validate ------------------------------
(* Trace validation: every recorded call of the implementation must be a    *)
(* step the specification allows in the state reached so far.  Each initial *)
(* state is one recorded trace; a trace is accepted when all its events     *)
(* have been consumed.                                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS InitState(_), Ok(_, _), After(_, _), Traces
VARIABLES t, i, s

VInit == /\ t \in 1..Len(Traces)
         /\ i = 1
         /\ s = InitState(Traces[t].cfg)

VNext == /\ i <= Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[i] IN
               /\ Ok(s, e) = TRUE        \* evaluated as a value, not as an action
               /\ s' = After(s, e)
         /\ i' = i + 1
         /\ t' = t

VAccept == IF i > Len(Traces[t].ev) THEN PrintT(<<"ACC", t>>) ELSE TRUE
VPos == PrintT(<<"POS", i>>)
=============================================================================
