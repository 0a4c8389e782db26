------------------------------ MODULE Progress ------------------------------
(* C08. Single progress indicators. kind: 1 lazy, 2 timeout, 3 global,        *)
(* 4 switcher (a global one, put in place of its host).                       *)
EXTENDS Bytes
Start(a) == {[kind |-> a[8], tmo |-> a[9], home |-> a[10], host |-> a[10], t |-> 0, pend |-> <<>>, want |-> FALSE, wantc |-> FALSE,
              rs |-> IF a[8] = 1 THEN 0 ELSE 1, re |-> 0, ss |-> 1, se |-> 0, value |-> -1, last |-> -1000000]}
One(s, r) == {[r |-> r, s |-> s]}
Size(x, y) == IF x <= y THEN y - x ELSE 0
\* C division: towards zero
Quot(x, y) == IF x >= 0 THEN x \div y ELSE -((-x) \div y)
Global(s) == s.kind >= 3
Fwd(s, r) == One(s, IF s.host = 1 THEN r ELSE <<>>)
Set(s, v) ==
    CASE s.kind = 1 ->
           LET show == One([s EXCEPT !.value = v, !.last = s.t], <<1, v, 0>>)
               skip == One(s, <<>>) IN
           IF v = s.rs \/ v = s.re THEN show                       \* the ends always show
           ELSE IF v = s.value \/ s.t - s.last < s.tmo THEN skip
           ELSE IF s.t - s.last = s.tmo THEN skip \cup show
           ELSE show
      [] s.kind = 2 -> Fwd(s, <<1, v, 0>>)
      [] OTHER -> LET n == Size(s.rs, s.re) IN
                  IF n = 0 THEN One(s, <<>>) ELSE Fwd(s, <<1, Quot((v - s.rs) * Size(s.ss, s.se), n) + s.ss, 0>>)
Do(s, c, a) ==
    CASE c = 1 -> Set(s, a[1])
      [] c = 2 -> IF s.kind = 2 THEN Fwd(s, <<2, a[1], a[2]>>) ELSE One([s EXCEPT !.rs = a[1], !.re = a[2]], <<>>)
      [] c \in {3, 4} -> IF s.kind = 1 THEN One(s, <<>>) ELSE Fwd(s, <<c, a[1], 0>>)
      [] c = 5 -> One(s, IF s.kind # 1 /\ s.host = 1 /\ s.wantc THEN <<1>> ELSE IF s.kind = 2 /\ s.t > s.tmo THEN <<1>> ELSE <<0>>)
                  \cup (IF s.kind = 2 /\ s.t = s.tmo THEN One(s, <<1>>) ELSE {})
      [] c = 6 -> One([s EXCEPT !.t = @ + a[1]], <<>>)
      [] c = 7 -> One([s EXCEPT !.wantc = a[1] # 0], <<>>)
      [] c = 8 -> One(IF Global(s) THEN [s EXCEPT !.host = a[1]] ELSE s, <<>>)
      [] c = 9 -> IF Global(s) THEN One([s EXCEPT !.host = 0], <<s.host>>) ELSE One(s, <<>>)
      [] c = 10 -> IF Global(s) THEN Fwd(s, <<2, a[1], a[2]>>) ELSE One(s, <<>>)
      [] c = 11 -> One([s EXCEPT !.ss = a[1], !.se = a[2]], <<>>)
      [] c = 12 -> One(s, <<1, IF s.kind = 4 THEN s.host ELSE s.home>>)
      [] OTHER -> {}
Eval(s, op, a) ==
    CASE op = "call" -> IF s.pend = <<>> THEN One([s EXCEPT !.pend = SubSeq(a, 2, Len(a))], <<>>) ELSE {}
      [] op = "ret" -> IF s.pend = <<>> THEN {} ELSE Do([s EXCEPT !.pend = <<>>], s.pend[1], Tail(s.pend))
      [] op = "end" -> One(s, <<>>)
      [] OTHER -> {}
=============================================================================
