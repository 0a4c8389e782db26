------------------------------- MODULE T_Pool -------------------------------
EXTENDS Pool
VARIABLES l, st
L == INSTANCE Lin
Start(a) == L!LStart(a)
Discard(o, x) == [o EXCEPT !.stock = [n \in NODES |-> @[n] \ {x}]]
Clearing(s) == \E t \in L!Undone(s) : s.p[t].code \in {3, 4}
\* the push of x may just not have returned yet
Pushing(s, x) == {t \in L!Undone(s) : s.p[t].code = 2 /\ s.p[t].args[2] = x}
Eval(s, op, a) ==
    CASE op = "gone" ->
           IF ~Clearing(s) THEN {}
           ELSE IF a[1] \in All(s.o) THEN {[r |-> <<>>, s |-> [s EXCEPT !.o = Discard(@, a[1])]]}
           ELSE {[r |-> <<>>, s |-> [s EXCEPT !.p[t].done = TRUE, !.p[t].r = <<0>>]] : t \in Pushing(s, a[1])}
      [] op = "call" /\ a[2] = 3 -> {[r |-> x.r, s |-> [x.s EXCEPT !.o.must[a[1]] = All(s.o)]] : x \in L!LEval(s, op, a)}
      [] OTHER -> L!LEval(s, op, a)
INSTANCE TraceBase
=============================================================================
