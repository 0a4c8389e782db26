------------------------------ MODULE T_Codec ------------------------------
EXTENDS Codec
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
