--------------------------- MODULE T_AggProgress ---------------------------
EXTENDS AggProgress
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
