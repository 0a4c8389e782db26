------------------------------ MODULE T_Buffer ------------------------------
EXTENDS Buffer
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
