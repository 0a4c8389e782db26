------------------------------- MODULE T_Fifo -------------------------------
EXTENDS Fifo
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
