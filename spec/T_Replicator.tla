---------------------------- MODULE T_Replicator ----------------------------
EXTENDS Replicator
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
