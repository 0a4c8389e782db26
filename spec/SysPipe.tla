------------------------------- MODULE SysPipe -------------------------------
(* S12. Streams over pipes and sockets. Ends 1 and 2 of a pair; q[k]: bytes   *)
(* sent to end k and not read yet, low[k]: how many of those are certain to   *)
(* have arrived (a buffered sender may hold the rest until flushed); h[k]:    *)
(* how many streams hold end k open; s[k]: state of the stream there.         *)
(* kind 0: pipe (1 sends, 2 receives); 1: pair of sockets. w[k]: what wraps   *)
(* the end (0: basic_sys, 1: socket, 2: buffered_sys). nb: non-blocking;      *)
(* rst: a socket went away with something unread, which the other end may be  *)
(* told as a failure                                                          *)
EXTENDS Bytes
Start(a) == {[kind |-> a[1], w |-> <<a[2], a[3]>>, nb |-> a[4] = 1, rst |-> FALSE, q |-> <<<<>>, <<>>>>, low |-> <<0, 0>>, h |-> <<1, 1>>, own |-> <<TRUE, TRUE>>, s |-> <<OK, OK>>]}
Ret(r, st) == {[r |-> r, s |-> st]}
Send(st, k, b, s) == LET o == 3 - k IN
    [st EXCEPT !.q[o] = @ \o b, !.low[o] = IF st.w[k] = 2 THEN @ ELSE Len(st.q[o]) + Len(b), !.s[k] = s]
Gone(st, k) == st.h[k] = 0
Receive(st, k, n, s) == [st EXCEPT !.q[k] = Drop(@, n), !.low[k] = Max2(0, @ - n), !.s[k] = s]
\* all that was written through a buffer is sent now
Flushed(st, k) == IF st.w[k] = 2 /\ ~Gone(st, 3 - k) THEN [st EXCEPT !.low[3 - k] = Len(st.q[3 - k])] ELSE st
Shut(st, k) == IF ~st.own[k] THEN st ELSE [Flushed(st, k) EXCEPT !.h[k] = @ - 1, !.own[k] = FALSE, !.rst = @ \/ (st.kind = 1 /\ st.q[k] # <<>>)]
Sends(st, k) == st.kind = 1 \/ k = 1
Eval(st, op, a) ==
    LET k == a[1]  o == 3 - k IN
    CASE op = "write" ->
            IF ~st.own[k] \/ ~Sends(st, k) \/ Gone(st, o) THEN {[r |-> <<0, x>>, s |-> [st EXCEPT !.s[k] = x]] : x \in IF a[3] = 0 THEN {OK, FAIL} ELSE {FAIL}}
            ELSE Ret(<<a[3], OK>>, Send(st, k, PatSeq(a[2], a[3]), OK))
      \* more than there may be room for, without blocking: a[4] was accepted
      [] op = "big" -> IF a[4] > a[3] \/ (a[4] > 0 /\ (~st.own[k] \/ ~Sends(st, k) \/ Gone(st, o))) \/ (a[4] < a[3] /\ a[3] < 500 /\ Len(st.q[o]) = 0 /\ st.own[k] /\ Sends(st, k) /\ ~Gone(st, o)) THEN {}
            ELSE {[r |-> <<a[4], x>>, s |-> Send(st, k, PatSeq(a[2], a[4]), x)] : x \in IF a[4] < a[3] THEN {FAIL} ELSE IF a[3] = 0 THEN {OK, FAIL} ELSE {OK}}
      [] op = "read" ->
            IF ~st.own[k] \/ (st.kind = 0 /\ k = 1) THEN {[r |-> <<0, x>>, s |-> [st EXCEPT !.s[k] = x]] : x \in IF a[2] = 0 THEN {OK, FAIL} ELSE {FAIL}}
            ELSE LET m == Min2(a[2], Len(st.q[k]))
                     sts == IF m > 0 THEN {OK} ELSE IF a[2] = 0 THEN {OK} \cup (IF st.nb \/ st.rst THEN {FAIL} ELSE {}) ELSE IF Gone(st, o) THEN {EOF} \cup (IF st.rst THEN {FAIL} ELSE {}) ELSE {FAIL}
                 IN {[r |-> <<m, x>> \o Take(st.q[k], m), s |-> Receive(st, k, m, x)] : x \in sts}
      \* the other end sends a[2] bytes bit by bit (and goes away) while a[3] are read
      [] op = "slow_read" -> LET all == st.q[k] \o PatSeq(9, a[2])  m == Min2(Len(all), a[3])  x == IF m = 0 THEN EOF ELSE OK IN
            Ret(<<m, x>> \o Take(all, m), [st EXCEPT !.q[k] = Drop(all, m), !.low[k] = Len(all) - m, !.s[k] = x, !.rst = @ \/ (a[4] = 1 /\ st.kind = 1 /\ st.q[o] # <<>>),
                                                       !.h[o] = IF a[4] = 1 THEN 0 ELSE @, !.own[o] = IF a[4] = 1 THEN FALSE ELSE @])
      \* the other end takes everything bit by bit while a[3] are written
      [] op = "slow_write" -> Ret(<<a[3], OK>> \o PatSeq(a[2], a[3]), [st EXCEPT !.s[k] = OK])
      [] op = "avail" -> {[r |-> <<n>>, s |-> [st EXCEPT !.low[k] = Max2(@, n)]] : n \in st.low[k]..Len(st.q[k])}
      [] op = "flush" -> LET t == Flushed(st, k) IN
            {[r |-> <<x>>, s |-> [t EXCEPT !.s[k] = x]] : x \in {OK, FAIL}}     \* what is buffered is sent; a pipe cannot be made to persist it
      [] op = "close" -> LET t == Shut(st, k) IN {[r |-> <<x, 0>>, s |-> [t EXCEPT !.s[k] = x]] : x \in {OK} \cup (IF st.w[k] = 2 /\ Gone(st, o) THEN {FAIL} ELSE {})}
      [] op = "destroy" -> Ret(<<>>, Shut(st, k))
      [] op = "state" -> Ret(<<st.s[k], IF st.own[k] THEN 1 ELSE 0>>, st)
      [] op = "hold" -> IF st.own[k] THEN Ret(<<1>>, [st EXCEPT !.h[k] = @ + 1]) ELSE Ret(<<0>>, st)
      [] op = "release" -> Ret(<<>>, [st EXCEPT !.h[k] = @ - a[2], !.rst = @ \/ (st.kind = 1 /\ st.q[k] # <<>>)])
      [] op = "move" -> {[r |-> <<>>, s |-> [st EXCEPT !.s[k] = x]] : x \in {OK, EOF, FAIL}}
      [] op = "make" -> Ret(IF a[2] = 1 THEN <<OK, 1>> ELSE <<FAIL, 0>>, st)
      [] OTHER -> {}
TypeOK(st) == \A k \in 1..2 : st.low[k] <= Len(st.q[k]) /\ st.h[k] >= 0 /\ (st.own[k] => st.h[k] > 0)
=============================================================================
