----------------------------- MODULE T_Mapping -----------------------------
EXTENDS Mapping
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
