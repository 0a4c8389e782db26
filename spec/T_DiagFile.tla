------------------------------- MODULE T_DiagFile -------------------------------
EXTENDS DiagFile
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
