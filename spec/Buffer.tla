------------------------------- MODULE Buffer -------------------------------
(* S03. A stream buffered for reading (rcap) and writing (wcap) over a device *)
(* with total bytes Pat(3, 0..) to read and a place to write to. Bytes        *)
(* accepted for writing are Pat(4, 0..): acc of them; del have been delivered. *)
(* Event sink [refused, flushes, closes, bytes..]: what the device got since. *)
EXTENDS Bytes
Start(a) == {[rcap |-> a[1], wcap |-> a[2], total |-> a[3], fin |-> IF a[4] = 2 THEN FAIL ELSE EOF, chunk |-> a[5], wlimit |-> a[6], wchunk |-> a[8],
              rpos |-> 0, acc |-> 0, del |-> 0, no |-> FALSE, fl |-> 0, cl |-> 0, shut |-> FALSE, gone |-> FALSE]}
Done(s, r) == [r |-> r, s |-> [s EXCEPT !.no = FALSE, !.fl = 0, !.cl = 0]]
Read(s, n) ==
    LET left == s.total - s.rpos
        ks == IF n = 0 \/ left = 0 THEN {0} ELSE IF s.chunk = 0 THEN {Min2(n, left)} ELSE 1..Min2(n, left) IN
    {Done([s EXCEPT !.rpos = @ + k], <<k, IF k = 0 /\ n > 0 THEN s.fin ELSE OK>> \o [i \in 1..k |-> Pat(3, s.rpos + i - 1)]) : k \in ks}
\* refused means that the device is full; it shows
Write(s, n) ==
    {x \in {[k |-> k, st |-> st] : k \in 0..n, st \in {OK, FAIL}} :
        /\ s.acc + x.k >= s.del /\ s.acc + x.k - s.del <= s.wcap
        /\ (s.no => s.del = s.wlimit /\ (x.k < n \/ x.st # OK \/ n = 0))
        /\ (~s.no => x.st = OK /\ (x.k < n => s.wchunk > 0))
        /\ (n = 0 => (x.st = OK <=> s.acc = s.del))}
Eval(s, op, a) ==
    IF s.gone THEN {} ELSE
    CASE op = "sink" -> IF (\A i \in 4..Len(a) : a[i] = Pat(4, s.del + i - 4)) /\ (s.shut => Len(a) = 3 /\ a[1] = 0)
                        THEN {[r |-> <<>>, s |-> [s EXCEPT !.del = @ + Len(a) - 3, !.no = a[1] = 1, !.fl = a[2], !.cl = a[3]]]} ELSE {}
      [] s.shut /\ op # "destroy" -> {}
      [] op = "read" -> Read(s, a[1])
      [] op = "write" -> {Done([s EXCEPT !.acc = @ + x.k], <<x.k, x.st>>) : x \in Write(s, a[1])}
      [] op = "flush" -> {Done(s, <<st>>) : st \in {st \in {OK, FAIL} : /\ (st = OK <=> s.acc = s.del)
                                                                         /\ (st = OK => s.fl > 0) /\ (st # OK => s.no)}}
      \* closing delivers what was accepted, or tells; then the device is closed, and not written to again
      [] op = "close" -> IF s.cl = 0 THEN {} ELSE {Done([s EXCEPT !.shut = TRUE], <<st>>) : st \in {st \in {OK, FAIL} : (st = OK <=> s.acc = s.del) /\ (st # OK => s.no)}}
      [] op = "destroy" -> IF s.shut \/ s.no \/ s.acc = s.del THEN {Done([s EXCEPT !.gone = TRUE], <<>>)} ELSE {}
      [] OTHER -> {}
=============================================================================
