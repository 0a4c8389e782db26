------------------------------ MODULE T_Tokens ------------------------------
EXTENDS Tokens
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
