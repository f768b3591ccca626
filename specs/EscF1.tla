-------------------------------- MODULE EscF1 --------------------------------
EXTENDS EscF
SetsV == { <<>>, <<10, 98>>, <<200>>, <<10, 48, 120>> }
==============================================================================
