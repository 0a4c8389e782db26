-------------------------------- MODULE Fifo --------------------------------
(* S05. A queue of bytes: of the bytes written, Pat(4, 0..), those from out   *)
(* on up to in are in the queue.                                              *)
EXTENDS Bytes
Start(a) == {[out |-> 0, in |-> 0, gone |-> FALSE, hit |-> FALSE]}
Eval(s, op, a) ==
    IF s.gone THEN {}
    \* there is no memory for what is written next: nothing of it is in the queue
    ELSE IF op = "hit" THEN {[r |-> <<>>, s |-> [s EXCEPT !.hit = TRUE]]}
    ELSE IF s.hit THEN IF op = "write" THEN {[r |-> <<0, FAIL>>, s |-> [s EXCEPT !.hit = FALSE]]} ELSE {}
    ELSE
    CASE op = "read" -> LET k == Min2(a[1], s.in - s.out) IN
            {[r |-> <<k, IF k = 0 /\ a[1] > 0 THEN EOF ELSE OK>> \o [i \in 1..k |-> Pat(4, s.out + i - 1)], s |-> [s EXCEPT !.out = @ + k]]}
      [] op = "write" -> {[r |-> <<a[1], OK>>, s |-> [s EXCEPT !.in = @ + a[1]]]}
      [] op = "size" -> {[r |-> <<s.in - s.out>>, s |-> s]}
      [] op = "close" -> {[r |-> <<OK>>, s |-> [s EXCEPT !.out = s.in]]}
      [] op = "flush" -> {[r |-> <<OK>>, s |-> s]}
      \* typed and counted I/O of the common base
      [] op = "skip" -> LET k == Min2(a[1], s.in - s.out) IN {[r |-> <<IF k < a[1] THEN EOF ELSE OK>>, s |-> [s EXCEPT !.out = @ + k]]}
      [] op = "read_array" -> LET k == Min2(a[1] * a[2], s.in - s.out) IN
            {[r |-> <<k \div a[1], IF k < a[1] * a[2] THEN EOF ELSE OK>> \o [i \in 1..((k \div a[1]) * a[1]) |-> Pat(4, s.out + i - 1)], s |-> [s EXCEPT !.out = @ + k]]}
      [] op = "destroy" -> {[r |-> <<>>, s |-> [s EXCEPT !.gone = TRUE]]}
      [] OTHER -> {}
=============================================================================
