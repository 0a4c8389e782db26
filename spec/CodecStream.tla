---------------------------- MODULE CodecStream ----------------------------
(* S08. Streams: kind 0: writing base64 text to a device of limited size (-1: *)
(* any), a line break after every m blocks; acc: bytes accepted, n: text      *)
(* characters delivered. kind 1: reading base64 text, q bytes read so far.    *)
EXTENDS Codec
SStart(a) == IF a[1] = 0 THEN {[kind |-> 0, m |-> a[2], acc |-> <<>>, n |-> 0, bad |-> FALSE, gone |-> FALSE, cap |-> a[3]]}
             ELSE {[kind |-> 1, fin |-> IF a[2] = 2 THEN FAIL ELSE EOF, data |-> Dec(<<>>, Drop(a, 3), <<>>).out, q |-> 0]}
Prefix(p, t) == Len(p) <= Len(t) /\ p = Take(t, Len(p))
\* delivered characters t (after n others) belong to the text of b
Fits(s, b, t) == LET full == EncLines(b, s.m) IN Prefix(t, Drop(full, s.n))
SEval(s, op, a) ==
    CASE op = "write" -> \* a: result, state, how many data bytes, data, delivered text
            LET n == a[1] data == SubSeq(a, 4, 3 + a[3]) t == Drop(a, 3 + a[3])
                b == s.acc \o Take(data, n)
                good == /\ n = a[3] /\ a[2] = OK /\ Fits(s, Full(b), t) /\ s.n + Len(t) = Len(EncLines(Full(b), s.m))
                \* the device is full: what it has got is right, and what counts as accepted is no more than that and a block
                breaks == (s.n + Len(t)) \div (4 * s.m + 1)
                groups == (s.n + Len(t) - breaks) \div 4
                fail == /\ s.cap >= 0 /\ s.n + Len(t) = s.cap /\ a[2] = FAIL /\ n <= a[3] /\ Fits(s, Full(s.acc \o data), t)
                        /\ 3 * groups <= Len(s.acc) + n /\ Len(s.acc) + n <= 3 * groups + 3
            IN IF s.gone THEN {}
               ELSE IF s.bad THEN (IF t = <<>> /\ (a[2] = FAIL \/ a[3] < 3) THEN {[r |-> <<>>, s |-> s]} ELSE {})
               ELSE IF good THEN {[r |-> <<>>, s |-> [s EXCEPT !.acc = b, !.n = @ + Len(t)]]}
               ELSE IF fail THEN {[r |-> <<>>, s |-> [s EXCEPT !.bad = TRUE]]} ELSE {}
      [] op = "destroy" -> LET full == EncLines(s.acc, s.m) rest == Drop(full, s.n) IN
            IF s.bad \/ a = (IF s.cap >= 0 THEN Take(rest, Max2(0, s.cap - s.n)) ELSE rest) THEN {[r |-> <<>>, s |-> [s EXCEPT !.gone = TRUE]]} ELSE {}
      [] op = "read" -> LET left == Len(s.data) - s.q k == Min2(a[1], left) IN
            {[r |-> <<k, st>> \o Slice(s.data, s.q, k), s |-> [s EXCEPT !.q = @ + k]] :
                st \in (IF k > 0 \/ a[1] = 0 THEN {OK} ELSE {}) \cup (IF k < a[1] THEN {s.fin} ELSE {})}
      [] OTHER -> {}
=============================================================================
