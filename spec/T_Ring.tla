------------------------------- MODULE T_Ring -------------------------------
EXTENDS Ring
VARIABLES l, st
L == INSTANCE Lin
Start(a) == L!LStart(a)
Eval(s, op, a) == L!LEval(s, op, a)
INSTANCE TraceBase
=============================================================================
