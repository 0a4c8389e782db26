------------------------------ MODULE T_Markup ------------------------------
EXTENDS Markup
VARIABLES l, st
INSTANCE TraceBase WITH Start <- MStart, Eval <- MEval
=============================================================================
