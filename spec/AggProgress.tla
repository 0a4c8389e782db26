---------------------------- MODULE AggProgress ----------------------------
(* C08. Workers (thread t is worker t) of one progress indicator. Calls:      *)
(* 1 set v, 2 set_range s e, 3 set_text i, 4 show b, 5 cancel; of the owner,  *)
(* thread 0: 6 attach h, 7 detach. Event host [h, t, kind, x, y]: thread t    *)
(* tells host h. val[t] = <<start, end, value>>; shown: what the current host *)
(* was told last.                                                             *)
EXTENDS Bytes
N == 4
Ts == 1..N
None == <<>>
Start(a) == {[val |-> [t \in Ts |-> <<0, 0, 0>>], host |-> 0, shown |-> <<-1, -1, -1>>,
              p |-> [t \in 0..N |-> None]]}
To(s) == {[r |-> <<>>, s |-> s]}
Busy(s) == {t \in 0..N : s.p[t] # None}
\* may the host be another one than s.host just now?
Hosts(s) == IF s.p[0] = None THEN {s.host} ELSE IF s.p[0].c = 6 THEN {s.host, s.p[0].a[1]} ELSE {s.host, 0}
Call(s, a) ==
    LET t == a[1] code == a[2] args == SubSeq(a, 3, Len(a)) IN
    IF s.p[t] # None THEN {}
    ELSE LET p1 == [s.p EXCEPT ![t] = [c |-> code, a |-> args, told |-> <<>>, loose |-> Hosts(s) # {s.host} \/ s.host = 0]] IN
         IF t = 0 THEN To([s EXCEPT !.p = [u \in 0..N |-> IF p1[u] = None THEN None ELSE [p1[u] EXCEPT !.loose = TRUE]]])
         ELSE To([s EXCEPT !.p = p1])
\* the sums, with any of the updates in progress done or not
After(s, t, k) == IF k = 3 THEN IF s.p[t] # None /\ s.p[t].c = 1 THEN {s.val[t][3], s.p[t].a[1]} ELSE {s.val[t][3]}
                  ELSE IF s.p[t] # None /\ s.p[t].c = 2 THEN {s.val[t][k], s.p[t].a[k]} ELSE {s.val[t][k]}
RECURSIVE Sums(_, _, _)
Sums(s, t, k) == IF t = 0 THEN {0} ELSE {x + y : x \in After(s, t, k), y \in Sums(s, t - 1, k)}
Sum(s, k) == s.val[1][k] + s.val[2][k] + s.val[3][k] + s.val[4][k]
Host(s, a) ==
    LET h == a[1] t == a[2] kind == a[3] IN
    IF h = 0 \/ h \notin Hosts(s) \/ t \notin 0..N THEN {}
    ELSE IF s.p[t] = None THEN {}
    ELSE LET p == s.p[t] s1 == [s EXCEPT !.p[t].told = <<kind, a[4]>>] IN
         CASE kind = 1 -> IF p.c \in {1, 6} /\ a[4] \in Sums(s, N, 3) THEN To([s1 EXCEPT !.shown[3] = a[4]]) ELSE {}
           [] kind = 2 -> IF p.c \in {2, 6} /\ a[4] \in Sums(s, N, 1) /\ a[5] \in Sums(s, N, 2)
                          THEN To([s1 EXCEPT !.shown[1] = a[4], !.shown[2] = a[5]]) ELSE {}
           [] kind \in {3, 4} -> IF p.c = kind /\ p.told = <<>> /\ p.a[1] = a[4] THEN To(s1) ELSE {}
           [] kind = 5 -> IF p.c = 5 THEN To(s1) ELSE {}
           [] OTHER -> {}
Ret(s, t) ==
    IF s.p[t] = None THEN {}
    ELSE LET p == s.p[t]
             s1 == [s EXCEPT !.p[t] = None]
             s2 == CASE p.c = 1 -> [s1 EXCEPT !.val[t][3] = p.a[1]]
                     [] p.c = 2 -> [s1 EXCEPT !.val[t][1] = p.a[1], !.val[t][2] = p.a[2]]
                     [] p.c = 6 -> [s1 EXCEPT !.host = p.a[1]]
                     [] p.c = 7 -> [s1 EXCEPT !.host = 0]
                     [] OTHER -> s1
             told == p.told # <<>> \/ p.loose
             r == CASE p.c = 5 -> IF p.told = <<>> THEN <<0>> ELSE <<p.told[2]>>
                    [] p.c = 7 -> <<s.host>>
                    [] OTHER -> <<>>
         IN IF /\ (p.c \in 3..5 => told)
               \* nothing in flight: the host shows the sums
               /\ (Busy(s2) = {} /\ s2.host # 0 => s2.shown = <<Sum(s2, 1), Sum(s2, 2), Sum(s2, 3)>>)
            THEN {[r |-> r, s |-> s2]} ELSE {}
Eval(s, op, a) ==
    CASE op = "call" -> Call(s, a)
      [] op = "host" -> Host(s, a)
      [] op = "ret" -> Ret(s, a[1])
      [] op = "end" -> IF Busy(s) = {} THEN To(s) ELSE {}
      [] OTHER -> {}
=============================================================================
