----------------------------- MODULE T_SysPipe -----------------------------
EXTENDS SysPipe
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
