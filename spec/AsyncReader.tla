---------------------------- MODULE AsyncReader ----------------------------
(* C02. A stream read ahead through a queue of cap bytes. The source delivers *)
(* the bytes Pat(3, 0..), total of them, no more than allowed so far, then    *)
(* ends as fin says. Codes: 1 read n, 2 allow k (-1: everything), 3 destroy   *)
EXTENDS Bytes
Init0(par) == {[total |-> par[2], fin |-> IF par[3] % 2 = 0 THEN FAIL ELSE EOF, pos |-> 0, allowed |-> 0]}
Left(o) == Min2(o.total, o.allowed) - o.pos
Got(o, k) == [i \in 1..k |-> Pat(3, o.pos + i - 1)]
Read(o, n) ==
    IF n <= Left(o) THEN {[r |-> <<n, OK>> \o Got(o, n), s |-> [o EXCEPT !.pos = @ + n]]}
    ELSE IF o.allowed < o.total THEN {}               \* the rest may still come
    ELSE LET k == o.total - o.pos IN {[r |-> <<k, IF k > 0 THEN OK ELSE o.fin>> \o Got(o, k), s |-> [o EXCEPT !.pos = o.total]]}
Step(o, t, code, a) ==
    CASE code = 1 -> Read(o, a[1])
      [] code = 2 -> {[r |-> <<>>, s |-> [o EXCEPT !.allowed = IF a[1] < 0 THEN 1000000 ELSE @ + a[1]]]}
      [] code = 3 -> {[r |-> <<>>, s |-> o]}
      [] OTHER -> {}
=============================================================================
