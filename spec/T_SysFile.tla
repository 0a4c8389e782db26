----------------------------- MODULE T_SysFile -----------------------------
EXTENDS SysFile
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
