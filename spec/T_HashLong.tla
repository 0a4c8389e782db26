---------------------------- MODULE T_HashLong ----------------------------
EXTENDS HashLong
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
