------------------------------- MODULE T_Diag -------------------------------
EXTENDS Diag
VARIABLES l, st
INSTANCE TraceBase WITH Eval <- DEval, Start <- DStart
=============================================================================
