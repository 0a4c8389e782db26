------------------------------ MODULE T_Hash ------------------------------
EXTENDS Hash
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
