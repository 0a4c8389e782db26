------------------------------ MODULE Spinlock ------------------------------
(* C07. Codes: 1 lock, 2 try_lock (-1: no), 3 unlock. Who gets the lock also  *)
(* increments a plain counter, whose previous value is the result.            *)
EXTENDS Bytes
Init0(par) == {[held |-> FALSE, n |-> 0]}
Take1(o) == {[r |-> <<o.n>>, s |-> [held |-> TRUE, n |-> o.n + 1]]}
Step(o, t, code, a) ==
    CASE code = 1 -> IF o.held THEN {} ELSE Take1(o)
      [] code = 2 -> IF o.held THEN {[r |-> <<-1>>, s |-> o]} ELSE Take1(o)
      [] code = 3 -> {[r |-> <<>>, s |-> [o EXCEPT !.held = FALSE]]}
      [] OTHER -> {}
=============================================================================
