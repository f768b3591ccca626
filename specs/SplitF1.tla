------------------------------- MODULE SplitF1 -------------------------------
EXTENDS SplitF
DelimsV == { <<44>>, <<32>>, <<32, 44>>, <<200>>, <<>> }
==============================================================================
