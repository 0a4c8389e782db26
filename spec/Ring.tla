-------------------------------- MODULE Ring --------------------------------
(* C01. A ring of cap elements between a producer and a consumer.            *)
(* Codes: 1 back, 2 push k values.., 3 front, 4 pop k values.., 5 quit, 6 sync *)
EXTENDS Bytes
Init0(par) == {[cap |-> par[1], head |-> 0, q |-> <<>>, quit |-> FALSE]}
Min(a, b) == IF a < b THEN a ELSE b
Tail0(o) == (o.head + Len(o.q)) % o.cap
\* largest contiguous region
BackLen(o) == Min(o.cap - Len(o.q), o.cap - Tail0(o))
FrontLen(o) == Min(Len(o.q), o.cap - o.head)
Step(o, t, code, a) ==
    CASE code = 1 -> IF o.quit THEN {[r |-> <<-1, 0>>, s |-> o]}
                     ELSE IF Len(o.q) = o.cap THEN {}
                     ELSE {[r |-> <<Tail0(o), n>>, s |-> o] : n \in 1..BackLen(o)}
      [] code = 2 -> {[r |-> <<>>, s |-> [o EXCEPT !.q = @ \o SubSeq(a, 2, 1 + a[1])]]}
      [] code = 3 -> IF o.q # <<>> THEN {[r |-> <<o.head, n>> \o SubSeq(o.q, 1, n), s |-> o] : n \in 1..FrontLen(o)}
                     ELSE IF o.quit THEN {[r |-> <<-1, 0>>, s |-> o]} ELSE {}
      \* what is popped is still what was pushed
      [] code = 4 -> IF SubSeq(o.q, 1, a[1]) = SubSeq(a, 2, 1 + a[1])
                     THEN {[r |-> <<>>, s |-> [o EXCEPT !.q = SubSeq(@, a[1] + 1, Len(@)), !.head = (@ + a[1]) % o.cap]]} ELSE {}
      [] code = 5 -> {[r |-> <<>>, s |-> [o EXCEPT !.quit = TRUE]]}
      \* is everything out?
      [] code = 6 -> IF o.quit \/ o.q = <<>> THEN {[r |-> <<IF o.q = <<>> THEN 1 ELSE 0>>, s |-> o]} ELSE {}
      [] OTHER -> {}
=============================================================================
