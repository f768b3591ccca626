-------------------------------- MODULE DaemonF1 --------------------------------
EXTENDS DaemonF
PwdsV == { <<>>, <<115, 117, 98>>, <<115, 117, 98, 47, 100, 101, 101, 112>>, <<47>> }
================================================================================
