---------------------------- MODULE T_CacheTimes ----------------------------
EXTENDS CacheTimes
VARIABLES l, st
INSTANCE TraceBase WITH Start <- CStart, Eval <- CEval
=============================================================================
