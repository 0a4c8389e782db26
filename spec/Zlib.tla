-------------------------------- MODULE Zlib --------------------------------
(* S10. Kind 0: writing: acc is what was written so far (start: kind, capacity *)
(* of the device or -1). Kind 1: reading (start: kind, how the device ends,    *)
(* its content); q bytes read so far.                                          *)
EXTENDS Inflate
Start(a) == IF a[1] = 0 THEN {[kind |-> 0, cap |-> a[2], acc |-> <<>>, bad |-> FALSE]}
            ELSE LET z == Drop(a, 2) x == Inflate(z) IN {[kind |-> 1, fin |-> IF a[2] = 2 THEN FAIL ELSE EOF, st |-> x.st, out |-> x.out, q |-> 0, bad |-> FALSE]}
Eval(s, op, a) ==
    CASE op = "write" -> IF s.bad THEN {[r |-> <<n, st>>, s |-> s] : n \in 0..Len(a), st \in {OK, FAIL}} \cup {[r |-> <<EXC>>, s |-> s]}
            ELSE {[r |-> <<Len(a), OK>>, s |-> [s EXCEPT !.acc = @ \o a]]} \cup
                 IF s.cap < 0 \/ a = <<>> THEN {} ELSE {[r |-> <<n, FAIL>>, s |-> [s EXCEPT !.bad = TRUE]] : n \in 0..(Len(a) - 1)} \cup {[r |-> <<EXC>>, s |-> [s EXCEPT !.bad = TRUE]]}
      \* the writer is gone. a: what the device has got. Either it is all there, or the loss was reported
      [] op = "destroy" -> LET x == Inflate(a) IN
            (IF ~s.bad /\ x.st = "done" /\ x.out = s.acc /\ x.n = Len(a) THEN {[r |-> <<OK>>, s |-> s]} ELSE {})
            \cup (IF s.cap >= 0 /\ Len(a) <= s.cap THEN {[r |-> <<EXC>>, s |-> s]} ELSE {})
      [] op = "read" ->
            LET left == Len(s.out) - s.q k == Min2(a[1], left)
                good == {[r |-> <<k, st>> \o Slice(s.out, s.q, k), s |-> [s EXCEPT !.q = @ + k]] :
                            st \in IF a[1] = 0 \/ k > 0 THEN {OK} ELSE {s.fin} \cup IF s.st = "done" THEN {EOF} ELSE {}} IN
            IF s.bad THEN {[r |-> <<EXC>>, s |-> s], [r |-> <<0, EOF>>, s |-> s], [r |-> <<0, FAIL>>, s |-> s], [r |-> <<0, OK>>, s |-> s]}
            ELSE IF s.st = "done" THEN good
            \* a premature end: what little can be decoded without its rest may or may not be delivered
            ELSE IF s.st = "short" THEN {[r |-> <<m, IF a[1] = 0 \/ m > 0 THEN OK ELSE s.fin>> \o Slice(s.out, s.q, m), s |-> [s EXCEPT !.q = @ + m]] : m \in IF s.q = 0 /\ a[1] > left THEN {k} ELSE 0..k}
            ELSE \* the damage shows by the time everything before it was delivered
                 {[r |-> <<EXC>>, s |-> [s EXCEPT !.bad = TRUE]]} \cup (IF k = a[1] THEN good ELSE {})
      [] OTHER -> {}
=============================================================================
