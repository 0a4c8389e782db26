------------------------------ MODULE T_Window ------------------------------
EXTENDS Window
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
