------------------------------- MODULE T_Html -------------------------------
EXTENDS Html
VARIABLES l, st
INSTANCE TraceBase WITH Start <- HStart, Eval <- HEval
=============================================================================
