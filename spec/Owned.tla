------------------------------- MODULE Owned -------------------------------
(* D02. Owners. o[i]: the handle object in slot i: on, h (handle or 0) and    *)
(* the resource it stands for; next: the next handle to be given out.         *)
(* p[i]: what owner i of a pointer holds (0: nothing); every value is one     *)
(* object on the heap.                                                        *)
EXTENDS Bytes, SequencesExt
None == [on |-> FALSE, h |-> 0, v |-> 0]
OStart(a) == {[real |-> Len(a) > 0 /\ a[1] > 1, g |-> [k \in 1..5 |-> 0], o |-> [i \in 1..3 |-> None], next |-> 1, p |-> [i \in 1..2 |-> 0]]}
\* descriptors of the system: how many there are, and what they stand for
ShowReal(s, st) == [r |-> <<st, Cardinality({i \in 1..3 : s.o[i].on /\ s.o[i].h # 0})>> \o [i \in 1..3 |-> IF s.o[i].on THEN s.o[i].v ELSE -2], s |-> s]
Show(s, st, closed) == IF s.real THEN ShowReal(s, st) ELSE [r |-> <<st>> \o SetToSortSeq(closed, LAMBDA x, y : x < y) \o <<-1>> \o FlattenSeq([i \in 1..3 |-> IF s.o[i].on THEN <<s.o[i].h, s.o[i].v>> ELSE <<-2>>]), s |-> s]
Held(x) == IF x.on /\ x.h # 0 THEN {x.h} ELSE {}
Of(h, v) == [on |-> TRUE, h |-> h, v |-> IF h = 0 THEN 0 ELSE v]
Copy(s, j) == IF s.o[j].h = 0 THEN Of(0, 0) ELSE Of(s.next, s.o[j].v)
Used(s, j) == IF s.o[j].h = 0 THEN s.next ELSE s.next + 1
Live(s) == Cardinality({i \in 1..2 : s.p[i] # 0})
Released(x) == IF x = 0 THEN <<>> ELSE <<x>>
OEval(s, op, a) ==
    LET i == a[1]  j == a[2] IN
    CASE op = "open" -> {Show([s EXCEPT !.o[i] = Of(s.next, a[2]), !.next = @ + 1], OK, {})}           \* slot, resource
      [] op = "none" -> {Show([s EXCEPT !.o[i] = Of(0, 0)], OK, {})}
      \* a third argument: duplicating fails
      [] op = "copyc" -> IF a[3] = 1 /\ s.o[j].h # 0 THEN {Show(s, EXC, {})} ELSE {Show([s EXCEPT !.o[i] = Copy(s, j), !.next = Used(s, j)], OK, {})}
      [] op = "copya" -> IF i = j THEN {Show(s, OK, {})}
            ELSE IF a[3] = 1 /\ s.o[j].h # 0 THEN {Show(s, EXC, {}), Show([s EXCEPT !.o[i] = Of(0, 0)], EXC, Held(s.o[i]))}
            ELSE {Show([s EXCEPT !.o[i] = Copy(s, j), !.next = Used(s, j)], OK, Held(s.o[i]))}
      [] op = "movec" -> {Show([s EXCEPT !.o[i] = s.o[j], !.o[j] = Of(0, 0)], OK, {})}
      [] op = "movea" -> IF i = j THEN {Show(s, OK, {})} ELSE {Show([s EXCEPT !.o[i] = s.o[j], !.o[j] = Of(0, 0)], OK, Held(s.o[i]))}
      [] op = "close" -> {Show([s EXCEPT !.o[i] = Of(0, 0)], OK, Held(s.o[i]))}
      [] op = "del" -> {Show([s EXCEPT !.o[i] = None], OK, Held(s.o[i]))}
      [] op = "test" -> {[r |-> <<IF s.o[i].h # 0 THEN 1 ELSE 0>>, s |-> s]}
      \* owners of things of the libraries (transfers, lists, addresses, locales; the library itself): g[k] what owner k holds; what was released meanwhile
      [] op = "take" -> {[r |-> Released(s.g[i]), s |-> [s EXCEPT !.g[i] = j]]}
      [] op \in {"drop", "pass"} -> {[r |-> Released(s.g[i]), s |-> [s EXCEPT !.g[i] = 0]]}    \* dropped, or moved to another owner who ends
      [] op = "keep" -> {[r |-> <<s.g[i]>>, s |-> [s EXCEPT !.g[i] = 0]]}                        \* taken away: nobody releases it
      [] op = "failed" -> {[r |-> <<EXC, i>>, s |-> s]}                                          \* the library doesn't begin: nothing to end
      [] op = "liberr" -> {[r |-> <<i>> \o (IF j = 0 THEN <<>> ELSE Drop(a, 2) \o <<58, 32>>) \o <<69, 48 + (i % 10)>>, s |-> s]}
      \* an owner lends its pointer: owner, what is done with it (0 nothing, 1 replaced, 2 taken away, 3 an exception), how, new value
      [] op = "lend" -> LET n == CASE j = 1 -> a[4] [] j = 2 -> 0 [] OTHER -> s.p[i]  t == [s EXCEPT !.p[i] = n] IN {[r |-> <<s.p[i], n, Live(t)>>, s |-> t]}
      [] op = "reset" -> LET t == [s EXCEPT !.p[i] = 0] IN {[r |-> <<0, 0, Live(t)>>, s |-> t]}
      [] op = "borrow" -> {[r |-> <<7, Live(s)>>, s |-> s]}               \* what isn't owned is not released
      \* 1 at the beginning, 2 in the middle, 3 at the end; an exception in the beginning or in the middle
      [] op = "scope" -> {[r |-> (CASE a[1] = 0 -> <<1, 2, 3>> [] a[1] = 1 -> <<1>> [] OTHER -> <<1, 3>>) \o <<a[2]>>, s |-> s]}
      \* released memory has none of the secret; what is held is whole
      [] op \in {"vec", "str", "map"} -> {[r |-> <<0, 1>>, s |-> s]}
      [] op = "blob" -> {[r |-> <<0, 0>>, s |-> s]}
      [] OTHER -> {}
=============================================================================
