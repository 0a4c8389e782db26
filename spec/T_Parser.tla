------------------------------ MODULE T_Parser ------------------------------
EXTENDS Parser
VARIABLES l, st
INSTANCE TraceBase WITH Start <- PStart, Eval <- PEval
=============================================================================
