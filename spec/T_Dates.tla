------------------------------ MODULE T_Dates ------------------------------
EXTENDS Dates
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
