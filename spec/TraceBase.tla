----------------------------- MODULE TraceBase -----------------------------
(* Trace validation: the recorded events must be a behaviour of the         *)
(* component's specification, given by Start (initial states, from the      *)
(* arguments of the start event) and Eval (possible results and successor   *)
(* states of an operation).                                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Eval(_, _, _)
VARIABLES l, st
Trace == TLCGet(2)
TInit == l = 1 /\ st = <<>> /\ TLCSet(1, 1) /\ TLCSet(2, ndJsonDeserialize(IOEnv.TRACE))
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "start" THEN st' \in Start(e.a)
            ELSE /\ e.op \notin {"crash", "hang"}
                 /\ \E o \in Eval(st, e.op, e.a) : o.r = e.r /\ st' = o.s
TConstraint == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
TPost == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
