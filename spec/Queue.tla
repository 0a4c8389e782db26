------------------------------- MODULE Queue -------------------------------
(* D01. Queues of limited size, in slots 1..3. q[i]: on, cap, d (content).     *)
(* After being moved from, a queue is empty (moved: its capacity is not        *)
(* specified). Arguments of pushes: slot, value, 1 if copying it fails.        *)
EXTENDS Bytes
Off == [on |-> FALSE, cap |-> 0, d |-> <<>>, moved |-> FALSE]
Start(a) == {[i \in 1..3 |-> Off]}
To(s, i, v) == [s EXCEPT ![i] = v]
Res(r, s) == {[r |-> r, s |-> s]}
\* at a full queue, the element at the opposite end goes
Back(x, v) == [x EXCEPT !.d = (IF Len(@) = x.cap THEN Tail(@) ELSE @) \o <<v>>]
Front(x, v) == [x EXCEPT !.d = <<v>> \o (IF Len(@) = x.cap THEN Take(@, Len(@) - 1) ELSE @)]
Gone == [on |-> TRUE, cap |-> 0, d |-> <<>>, moved |-> TRUE]
Eval(s, op, a) ==
    CASE op = "end" -> Res(<<0, 0>>, [i \in 1..3 |-> Off])
      [] op = "new" -> IF s[a[1]].on THEN {} ELSE Res(<<OK>>, To(s, a[1], [Off EXCEPT !.on = TRUE, !.cap = a[2]]))
      [] op = "del" -> IF ~s[a[1]].on THEN {} ELSE Res(<<OK>>, To(s, a[1], Off))
      \* by construction, then by assignment
      [] op \in {"copyc", "movec"} /\ s[a[1]].on -> {}
      [] op \in {"copya", "movea"} /\ ~s[a[1]].on -> {}
      [] op \in {"copyc", "movec", "copya", "movea"} /\ ~s[a[2]].on -> {}
      \* a third argument: copying this element (from 1) fails
      [] op \in {"copyc", "copya"} -> LET x == s[a[2]] IN
            IF a[1] # a[2] /\ a[3] > 0 /\ a[3] <= Len(x.d) THEN Res(<<EXC>>, s) ELSE Res(<<OK>>, To(s, a[1], x))
      [] op \in {"movec", "movea"} -> IF a[1] = a[2] THEN Res(<<OK>>, s) ELSE Res(<<OK>>, To(To(s, a[1], s[a[2]]), a[2], Gone))
      [] ~s[a[1]].on -> {}
      [] op \in {"pb", "pf", "pbm", "pfm"} -> LET x == s[a[1]] IN
            IF x.moved THEN {}
            ELSE IF x.cap = 0 \/ a[3] = 1 THEN Res(<<EXC>>, s)
            ELSE Res(<<a[2]>>, To(s, a[1], IF op \in {"pb", "pbm"} THEN Back(x, a[2]) ELSE Front(x, a[2])))
      [] op \in {"popb", "popf"} -> LET x == s[a[1]] IN
            IF x.d = <<>> THEN Res(<<EXC>>, s)
            ELSE Res(<<OK>>, To(s, a[1], [x EXCEPT !.d = IF op = "popf" THEN Tail(@) ELSE Take(@, Len(@) - 1)]))
      [] op = "clear" -> Res(<<OK>>, To(s, a[1], [s[a[1]] EXCEPT !.d = <<>>]))
      \* by at() and [], constant or not
      [] op = "get" -> LET x == s[a[1]] IN IF a[2] >= Len(x.d) THEN Res(<<EXC, EXC, EXC, EXC>>, s) ELSE Res(<<x.d[a[2] + 1], x.d[a[2] + 1], x.d[a[2] + 1], x.d[a[2] + 1]>>, s)
      [] op = "set" -> LET x == s[a[1]] IN IF a[2] >= Len(x.d) THEN Res(<<EXC>>, s) ELSE Res(<<OK>>, To(s, a[1], [x EXCEPT !.d[a[2] + 1] = a[3]]))
      [] op = "ends" -> LET x == s[a[1]] n == Len(x.d) IN
            IF n = 0 THEN Res(<<EXC, EXC, EXC, EXC, EXC, EXC>>, s) ELSE Res(<<x.d[1], x.d[1], x.d[n], x.d[n], x.d[1], x.d[n]>>, s)
      \* size, capacity, emptiness, elements by their absolute locations
      [] op = "obs" -> LET x == s[a[1]] n == Len(x.d) IN
            {[r |-> <<n, c, IF n = 0 THEN 1 ELSE 0>> \o x.d, s |-> s] : c \in IF x.moved THEN 0..16 ELSE {x.cap}}
      [] OTHER -> {}
=============================================================================
