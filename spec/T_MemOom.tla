----------------------------- MODULE T_MemOom -----------------------------
EXTENDS MemOom
VARIABLES l, st
INSTANCE TraceBase WITH Start <- OStart, Eval <- OEval
=============================================================================
