------------------------------- MODULE T_Ids -------------------------------
EXTENDS Ids
VARIABLES l, st
INSTANCE TraceBase WITH Start <- StartI, Eval <- EvalI
=============================================================================
