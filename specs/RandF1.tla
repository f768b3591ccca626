-------------------------------- MODULE RandF1 --------------------------------
EXTENDS RandF
SeedsV == { Zero, One, W(1234567), NotW(Zero), <<\h8000, 0, 0, 0>> }
===============================================================================
