----------------------------- MODULE T_Strings -----------------------------
EXTENDS Strings
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
