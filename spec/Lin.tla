-------------------------------- MODULE Lin --------------------------------
(* Concurrent objects: the events are the calls and the returns of the       *)
(* threads; each operation takes effect atomically somewhere in between.     *)
(* Step(o, t, code, args) is the set of [r, s] (result, next object state)   *)
(* an operation of thread t may have now: empty while it has to wait.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Init0(_), Step(_, _, _, _)
NTHREADS == 12
None == <<>>
\* start: the first 7 arguments belong to the scheduler
LStart(a) == {[o |-> o, p |-> [t \in 0..NTHREADS |-> None]] : o \in Init0(SubSeq(a, 8, Len(a)))}
Undone(st) == {t \in 0..NTHREADS : st.p[t] # None /\ ~st.p[t].done}
Idle(st) == \A t \in 0..NTHREADS : st.p[t] = None
Blocked(st) == \A t \in Undone(st) : Step(st.o, t, st.p[t].code, st.p[t].args) = {}
\* Everything that lets thread t return now: other pending calls may take effect before.
RECURSIVE Effects(_, _)
Effects(st, t) ==
    IF st.p[t] = None THEN {}
    ELSE IF st.p[t].done THEN {[r |-> st.p[t].r, s |-> [st EXCEPT !.p[t] = None]]}
    ELSE {[r |-> x.r, s |-> [o |-> x.s, p |-> [st.p EXCEPT ![t] = None]]] : x \in Step(st.o, t, st.p[t].code, st.p[t].args)}
         \cup UNION {UNION {Effects([o |-> x.s, p |-> [st.p EXCEPT ![u] = [@ EXCEPT !.done = TRUE, !.r = x.r]]], t)
                            : x \in Step(st.o, u, st.p[u].code, st.p[u].args)} : u \in Undone(st) \ {t}}
LEval(st, op, a) ==
    CASE op = "call" -> IF st.p[a[1]] # None THEN {}
                        ELSE {[r |-> <<>>, s |-> [st EXCEPT !.p[a[1]] = [code |-> a[2], args |-> SubSeq(a, 3, Len(a)), done |-> FALSE, r |-> <<>>]]]}
      [] op = "ret" -> Effects(st, a[1])
      [] op = "end" -> IF Idle(st) THEN {[r |-> <<>>, s |-> st]} ELSE {}
      \* everybody waits, and has to
      [] op = "deadlock" -> IF Undone(st) # {} /\ Blocked(st) /\ (\A t \in 0..NTHREADS : st.p[t] # None => ~st.p[t].done)
                            THEN {[r |-> <<>>, s |-> st]} ELSE {}
      [] OTHER -> {}             \* race, hang, crash
=============================================================================
