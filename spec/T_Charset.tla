----------------------------- MODULE T_Charset -----------------------------
EXTENDS Charset
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
