----------------------------- MODULE T_TypedIO -----------------------------
EXTENDS TypedIO
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
