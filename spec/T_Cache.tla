------------------------------- MODULE T_Cache -------------------------------
EXTENDS Cache
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
