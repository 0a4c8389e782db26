------------------------------- MODULE T_Num -------------------------------
EXTENDS Num
VARIABLES l, st
INSTANCE TraceBase WITH Start <- NStart, Eval <- NEval
=============================================================================
