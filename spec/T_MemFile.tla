----------------------------- MODULE T_MemFile -----------------------------
EXTENDS MemFile
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
