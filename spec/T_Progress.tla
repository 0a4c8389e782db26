----------------------------- MODULE T_Progress -----------------------------
EXTENDS Progress
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
