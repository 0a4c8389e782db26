------------------------------ MODULE Watchdog ------------------------------
(* C05. Time is virtual (ms): it passes only while everybody sleeps or waits. *)
(* mode: armed (the callback is due at dl), due (it is past dl: being called  *)
(* although a reset came at the very moment), calling, idle (called, waiting  *)
(* for a reset), off. again: reset since the timeout.                         *)
EXTENDS Bytes
Start(a) == {[mode |-> "new", tmo |-> a[8], dl |-> 0, again |-> FALSE, dying |-> FALSE, t |-> 0]}
To(s) == {[r |-> <<>>, s |-> s]}
Arm(s, t) == [s EXCEPT !.mode = "armed", !.dl = t + s.tmo, !.again = FALSE]
\* may time t be reached without the callback having been called?
Reached(s, t) == t >= s.t /\ (s.mode \in {"armed", "due"} /\ ~s.dying => t <= s.dl)
Reset(s, t) ==
    CASE s.mode = "armed" -> IF t < s.dl THEN {Arm(s, t)} ELSE {Arm(s, t), [s EXCEPT !.mode = "due", !.again = TRUE]}
      [] s.mode \in {"due", "calling"} -> {[s EXCEPT !.again = TRUE]}
      [] s.mode = "idle" -> {Arm(s, t)}
      [] OTHER -> {}
Next1(s, op, t) ==
    CASE op = "create" -> IF s.mode = "new" THEN {Arm(s, t)} ELSE {}
      [] op = "reset" -> IF s.dying THEN {} ELSE Reset(s, t)
      [] op = "slept" -> {s}
      [] op = "cb_begin" -> IF s.mode \in {"armed", "due"} /\ t = s.dl /\ (s.dying => t = s.t) THEN {[s EXCEPT !.mode = "calling"]} ELSE {}
      [] op = "cb_end" -> IF s.mode # "calling" THEN {} ELSE IF s.again THEN {Arm(s, t)} ELSE {[s EXCEPT !.mode = "idle"]}
      [] op = "destroy" -> {[s EXCEPT !.dying = TRUE]}
      [] op = "destroyed" -> IF s.dying /\ s.mode \notin {"due", "calling"} /\ t = s.t THEN {[s EXCEPT !.mode = "off", !.dying = FALSE]} ELSE {}
      [] OTHER -> {}
Eval(s, op, a) ==
    IF op = "end" THEN IF s.mode = "off" THEN To(s) ELSE {}
    ELSE IF op \notin {"create", "reset", "slept", "cb_begin", "cb_end", "destroy", "destroyed"} THEN {}
    ELSE IF ~Reached(s, a[1]) THEN {}
    ELSE UNION {To([x EXCEPT !.t = a[1]]) : x \in Next1(s, op, a[1])}
=============================================================================
