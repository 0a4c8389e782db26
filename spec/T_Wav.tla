------------------------------- MODULE T_Wav -------------------------------
EXTENDS Wav
VARIABLES l, st
INSTANCE TraceBase WITH Eval <- WEval
=============================================================================
