------------------------------- MODULE T_Rec -------------------------------
EXTENDS Rec
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
