-------------------------------- MODULE OptF2 --------------------------------
EXTENDS OptF1
ASSUME \A s \in CfgSet, d \in Lines, w \in Whats : GoodLine(s, d, w)
===============================================================================
