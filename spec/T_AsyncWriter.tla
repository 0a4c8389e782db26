--------------------------- MODULE T_AsyncWriter ---------------------------
EXTENDS AsyncWriter
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
