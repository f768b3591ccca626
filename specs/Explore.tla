------------------------------ MODULE Explore ------------------------------
(* Generic exploration of a data-type model: the model supplies its initial *)
(* states, the events possible in a state (operation, arguments and the     *)
(* result the specification requires) and the successor state.  TLC visits  *)
(* the reachable graph, evaluates the model's invariant in every state and  *)
(* prints the behaviours that cover every transition; those are then        *)
(* replayed into the implementation.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cfgs, InitState(_), Events(_), After(_, _), Good(_), Abs(_),
          MaxLen, Tree
VARIABLES s, hist, prev, cfg

XInit == /\ cfg \in Cfgs
         /\ s = InitState(cfg)
         /\ hist = <<>>
         /\ prev = <<>>

XNext == /\ Len(hist) < MaxLen
         /\ \E e \in Events(s) :
               /\ s' = After(s, e)
               /\ hist' = Append(hist, e)
               /\ prev' = Abs(s)
         /\ UNCHANGED cfg

XGood == Good(s)

\* transitions (not just states) are distinguished by the view
XView == <<cfg, prev, Abs(s), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>

XEmit == IF (IF Tree THEN Len(hist) = MaxLen ELSE hist # <<>>)
         THEN PrintT(<<"T", ToJson([cfg |-> cfg, ev |-> hist])>>)
         ELSE TRUE
=============================================================================
