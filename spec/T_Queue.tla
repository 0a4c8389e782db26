------------------------------ MODULE T_Queue ------------------------------
EXTENDS Queue
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
