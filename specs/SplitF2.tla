------------------------------- MODULE SplitF2 -------------------------------
EXTENDS SplitF
DelimsV == { <<>>, <<44>>, <<59, 32>> }
==============================================================================
