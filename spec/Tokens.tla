------------------------------- MODULE Tokens -------------------------------
(* T04. Rebuilding a part of a document: started tokens are kept on a stack,  *)
(* what is not wanted any longer is ended in the reverse order of starting,   *)
(* and inserted tokens come with the tokens they need started.                *)
(* Tokens: 0..3 starting, 4 complete, 5 ending. What is appended to the       *)
(* source: a token, or 100 + the token ended.                                 *)
EXTENDS Bytes
New == [act |-> <<>>, ins |-> <<>>]
\* how much of the stacks is the same
RECURSIVE Same(_, _, _)
Same(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i - 1 ELSE IF a[i] # b[i] THEN i - 1 ELSE Same(a, b, i + 1)
Ended(act, new) == LET n == Same(act, new, 1) IN [i \in 1..(Len(act) - n) |-> 100 + act[Len(act) + 1 - i]] \o <<>>
Kept(act, new) == SubSeq(act, 1, Same(act, new, 1))
\* inserted tokens from number i on: <<appended, active, left>>
RECURSIVE Insert(_, _, _, _, _, _)
Insert(ins, i, w, act, out, left) ==
    IF i > Len(ins) THEN <<out, act, left>>
    ELSE LET t == ins[i] IN
         IF t.w # w THEN Insert(ins, i + 1, w, act, out, Append(left, t))
         ELSE IF t.t = 5 THEN Insert(ins, i + 1, w, act, Append(out, 5), left)
         ELSE Insert(ins, i + 1, w, t.l, out \o Ended(act, t.l) \o Drop(t.l, Same(act, t.l, 1)) \o <<t.t>>, left)
Start(a) == {New}
Eval(s, op, a) ==
    CASE op = "end" -> LET k == Kept(s.act, a) IN {[r |-> <<Len(k)>> \o Ended(s.act, a) \o <<-7>> \o k, s |-> [s EXCEPT !.act = k]]}
      [] op = "begin" ->  \* 1: from which on. Those before are not started.
            LET n == Drop(a, 1 + a[1]) IN {[r |-> n \o <<-7>> \o s.act \o n, s |-> [s EXCEPT !.act = @ \o n]]}
      [] op = "insert" -> {[r |-> <<>>, s |-> [s EXCEPT !.ins = Append(@, [t |-> a[1], w |-> <<a[2], a[3]>>, l |-> Drop(a, 3)])]]}
      [] op = "word" -> LET x == Insert(s.ins, 1, a, s.act, <<>>, <<>>) IN
            {[r |-> x[1] \o <<-7>> \o x[2] \o <<-7>> \o [i \in 1..Len(x[3]) |-> x[3][i].t], s |-> [act |-> x[2], ins |-> x[3]]]}
      [] op = "merge" ->  \* 1: how many in the first list
            LET x == SubSeq(a, 2, 1 + a[1]) y == Drop(a, 1 + a[1])
                new == SelectSeq([i \in 1..Len(y) |-> IF \E j \in 1..Len(x) : x[j] = y[i] THEN -1 ELSE IF \E j \in 1..i - 1 : y[j] = y[i] THEN -1 ELSE y[i]], LAMBDA z : z >= 0) IN
            {[r |-> x \o new, s |-> s]}
      [] OTHER -> {}
=============================================================================
