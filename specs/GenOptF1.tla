------------------------------- MODULE GenOptF1 -------------------------------
(* GenOptF as a model of its own *)
EXTENDS Integers, Sequences
CONSTANTS Dummy
G == INSTANCE GenOptF WITH CfgSet <- {}, Lines <- {}, Whats <- {}, Maxes <- {}
InitState(c) == c
Ok(s, e) == G!OkGen(s, e)
After(s, e) == s
Events(s) == {}
Cfgs == {}
Abs(s) == s.T
Good(s) == TRUE
===============================================================================
