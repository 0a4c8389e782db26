------------------------------ MODULE T_Escape ------------------------------
EXTENDS Escape
VARIABLES l, st
INSTANCE TraceBase WITH Eval <- EEval
=============================================================================
