--------------------------------- MODULE CpuF1 ---------------------------------
EXTENDS CpuF
AskedV == { -2147483647, -1, 0, 1, 3, 64, 1023, 1024, 5000 }
================================================================================
