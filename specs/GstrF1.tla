-------------------------------- MODULE GstrF1 -------------------------------
EXTENDS GstrF
StrsV == { <<>>, <<10>>, <<34, 97>>, <<32, 97>> }
FilesV == { <<97, 10>>, <<44, 44, 97>> }
==============================================================================
