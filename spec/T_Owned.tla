------------------------------ MODULE T_Owned ------------------------------
EXTENDS Owned
VARIABLES l, st
INSTANCE TraceBase WITH Start <- OStart, Eval <- OEval
=============================================================================
