------------------------------ MODULE T_Sgml ------------------------------
EXTENDS Sgml
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
