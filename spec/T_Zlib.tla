------------------------------ MODULE T_Zlib ------------------------------
EXTENDS Zlib
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
