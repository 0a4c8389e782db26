-------------------------------- MODULE Pool --------------------------------
(* C06. A stock of items per NUMA node. Codes: 1 pop node.. dflt, 2 push node *)
(* id dflt, 3 clear, 4 destroy; node -1: the default one, dflt. The event     *)
(* gone [id]: an item was destroyed while in the pool.                        *)
EXTENDS Bytes
NODES == 0..7
Init0(par) == {[stock |-> [n \in NODES |-> {}], must |-> [t \in 0..12 |-> {}], gone |-> FALSE]}
All(o) == UNION {o.stock[n] : n \in NODES}
Node(a, d) == IF a[1] < 0 THEN d ELSE a[1]
Step(o, t, code, a) ==
    CASE o.gone -> {}
      [] code = 1 -> LET n == Node(a, a[2]) IN
                     IF o.stock[n] = {} THEN {[r |-> <<0>>, s |-> o]}
                     ELSE {[r |-> <<x>>, s |-> [o EXCEPT !.stock[n] = @ \ {x}]] : x \in o.stock[n]}
      [] code = 2 -> LET n == Node(a, a[3]) IN {[r |-> <<0>>, s |-> [o EXCEPT !.stock[n] = @ \cup {a[2]}]]}
      \* what was in stock when it began is no longer
      [] code = 3 -> IF o.must[t] \cap All(o) = {} THEN {[r |-> <<>>, s |-> o]} ELSE {}
      [] code = 4 -> IF All(o) = {} THEN {[r |-> <<>>, s |-> [o EXCEPT !.gone = TRUE]]} ELSE {}
      [] OTHER -> {}
=============================================================================
