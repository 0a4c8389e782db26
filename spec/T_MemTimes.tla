---------------------------- MODULE T_MemTimes ----------------------------
EXTENDS MemTimes
VARIABLES l, st
INSTANCE TraceBase WITH Start <- MStart, Eval <- MEval
=============================================================================
