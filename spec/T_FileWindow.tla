----------------------------- MODULE T_FileWindow ------------------------------
EXTENDS FileWindow
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
