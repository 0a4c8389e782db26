----------------------------- MODULE T_Watchdog -----------------------------
EXTENDS Watchdog
VARIABLES l, st
INSTANCE TraceBase
=============================================================================
