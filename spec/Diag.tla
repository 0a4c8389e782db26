-------------------------------- MODULE Diag --------------------------------
(* T07, diagnostics: every message reaches its channel whole, formatted as   *)
(* printf would, in order, and nothing else does; a benchmark tells its name *)
(* and the time between its construction and its destruction.                *)
EXTENDS Strings
Width(s, n) == IF Len(s) >= n THEN s ELSE [i \in 1..(n - Len(s)) |-> 32] \o s
Message(style, n, u) ==
    CASE style = 0 -> u
      [] style = 1 -> Dec(n) \o <<58, 32>> \o u \o <<10>>
      [] style = 2 -> u \o <<122, 37, 10>>
      [] style = 3 -> <<91>> \o Width(Dec(n), 5) \o <<93>>
      [] style = 4 -> [i \in 1..Len(u) |-> IF u[i] = 37 THEN 112 ELSE u[i]]
RECURSIVE Messages(_, _)
Messages(a, ch) == IF a = <<>> THEN <<>> ELSE
    (IF a[1] \div 2 = ch THEN Message(a[2], a[3], SubSeq(a, 5, 4 + a[4])) ELSE <<>>) \o Messages(SubSeq(a, 5 + a[4], Len(a)), ch)
\* the value of decimal digits, up to 9 of them and one more
Elapsed(d) == IF Len(d) > 10 \/ d = <<>> \/ (Len(d) > 1 /\ d[1] = 48) \/ \E i \in 1..Len(d) : d[i] < 48 \/ d[i] > 57 THEN -1
             ELSE IF Len(d) = 10 THEN 2000000000 ELSE FoldLeft(LAMBDA v, c : v * 10 + c - 48, 0, d)
Took == <<32, 116, 111, 111, 107, 32>>
Ns == <<32, 110, 115, 10>>
DEval(st, op, a) ==
    CASE op = "say" -> LET o == Messages(a, 0)  e == Messages(a, 1) IN {[r |-> <<Len(o)>> \o o \o e, s |-> st]}
      [] op = "bench" -> LET name == SubSeq(a, 4, 3 + a[3])  text == SubSeq(a, 4 + a[3], Len(a))  p == Len(name) + 6
                             n == Elapsed(SubSeq(text, p + 1, Len(text) - 4)) IN
         IF Len(text) > p + 4 /\ SubSeq(text, 1, p) = name \o Took /\ SubSeq(text, Len(text) - 3, Len(text)) = Ns /\ n >= a[1] /\ n <= a[2]
         THEN {[r |-> <<0>>, s |-> st]} ELSE {}
DStart(a) == {0}
=============================================================================
