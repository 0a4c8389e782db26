--------------------------- MODULE T_MemUnchecked ---------------------------
EXTENDS MemUnchecked
VARIABLES l, st
INSTANCE TraceBase WITH Eval <- UEval
=============================================================================
