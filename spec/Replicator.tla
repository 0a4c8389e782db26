----------------------------- MODULE Replicator -----------------------------
(* C04. Streams attached to a replicator. Calls: 1 write tag n, 2 flush,      *)
(* 3 close, 4 push_back id plan, 5 remove id, 6 destroy. Event sink           *)
(* [id, kind, count, state, bytes..]: what a stream was asked, and answered.  *)
EXTENDS Bytes
NoCall == <<0>>
Start(a) == {[on |-> <<>>, pend |-> NoCall, ans |-> <<>>, gone |-> FALSE]}      \* ans: id -> [n, state]
To(s) == {[r |-> <<>>, s |-> s]}
Ids(s) == {s.on[i] : i \in 1..Len(s.on)}
Answered(s) == {s.ans[i].id : i \in 1..Len(s.ans)}
Sink(s, a) ==
    IF /\ s.pend[1] \in 1..3 /\ a[2] = s.pend[1]                   \* only while the operation is in progress,
       /\ a[1] \in Ids(s) /\ a[1] \notin Answered(s)               \* attached streams only, and once
       /\ (a[2] = 1 => SubSeq(a, 5, Len(a)) = PatSeq(s.pend[2], s.pend[3]))
    THEN To([s EXCEPT !.ans = Append(@, [id |-> a[1], n |-> a[3], st |-> a[4]])]) ELSE {}
Call(s, a) == IF s.gone \/ s.pend # NoCall THEN {} ELSE To([s EXCEPT !.pend = SubSeq(a, 2, Len(a)), !.ans = <<>>])
Back(s) == [s EXCEPT !.pend = NoCall, !.ans = <<>>]
Bad(s) == {s.ans[i].st : i \in 1..Len(s.ans)} \ {OK}
States(s) == IF Bad(s) = {} THEN {OK} ELSE Bad(s)
Least(s, n) == LET m == {s.ans[i].n : i \in 1..Len(s.ans)} \cup {n} IN CHOOSE x \in m : \A y \in m : x <= y
Ret(s) ==
    LET c == s.pend IN
    CASE c[1] \in 1..3 ->
           IF Answered(s) # Ids(s) THEN {}
           ELSE {[r |-> (IF c[1] = 1 THEN <<Least(s, c[3])>> ELSE <<>>) \o <<x>>, s |-> Back(s)] : x \in States(s)}
      [] c[1] = 4 -> To(Back([s EXCEPT !.on = Append(@, c[2])]))
      [] c[1] = 5 -> To(Back([s EXCEPT !.on = SelectSeq(@, LAMBDA x : x # c[2])]))
      [] c[1] = 6 -> To(Back([s EXCEPT !.on = <<>>, !.gone = TRUE]))
      [] OTHER -> {}
Eval(s, op, a) ==
    CASE op = "call" -> Call(s, a)
      [] op = "ret" -> Ret(s)
      [] op = "sink" -> Sink(s, a)
      [] op = "end" -> IF s.gone THEN To(s) ELSE {}
      [] OTHER -> {}
=============================================================================
