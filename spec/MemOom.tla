------------------------------- MODULE MemOom -------------------------------
(* S01, when memory runs out: the memory files of MemFile, and h: the memory   *)
(* asked for during the next operation is not there. What cannot be stored is  *)
(* not stored and said so; what was there stays as it was.                     *)
EXTENDS MemFile
OStart(a) == {[m |-> x, h |-> FALSE] : x \in Start(a)}
Lost(m, op, a) ==
    LET k == a[1]
        f == m.f[k]
        other == 3 - k
        g == m.f[other]
        Bad(x) == [x EXCEPT !.s = FAIL]
        One(r, x) == {[r |-> r, s |-> [m EXCEPT !.f[k] = x]]}
        \* the first j bytes of b made it
        Got(x, b, j) == IF j = 0 THEN Bad(x) ELSE [x EXCEPT !.d = Overwrite(@, x.off, Take(b, j)), !.off = @ + j, !.s = FAIL]
    IN
    CASE op \in {"write", "put", "write_array"} -> One(<<0, FAIL>>, Bad(f))
      [] op \in {"write_byte", "truncate", "reserve"} -> One(<<FAIL>>, Bad(f))
      [] op \in {"write_data", "write_str"} /\ f.s = OK -> One(<<FAIL>>, Bad(f))
      [] op = "write_stream" -> UNION {One(<<j, FAIL>>, Got(f, PatSeq(a[2], a[3]), j)) : j \in 0..(IF a[5] >= 0 THEN 0 ELSE a[3])}
      [] op = "read_remainder" -> One(<<0, FAIL>>, Bad(f))
      [] op = "copy_between" ->
            {[r |-> <<j, FAIL, s>>, s |-> [m EXCEPT !.f[other] = Got(g, Slice(f.d, f.off, j), j), !.f[k] = [f EXCEPT !.off = @ + j, !.s = s]]]
                : j \in 0..(IF a[2] >= 0 THEN 0 ELSE Avail(f)), s \in {f.s, OK}}
      [] op = "copy_ctor" -> {[r |-> <<EXC, f.s>>, s |-> m]}
      \* what it was assigned to either kept its own or lost it, but is a file still
      [] op = "copy_assign" -> {[r |-> <<EXC, f.s>>, s |-> [m EXCEPT !.f[other] = x]] : x \in {g, Bad(g), Empty, Bad(Empty)}}
      [] op = "save_load" /\ a[2] % 2 = 1 -> {[r |-> <<OK, FAIL>> \o f.d, s |-> [m EXCEPT !.f[k].s = OK, !.f[other] = x]]
                : x \in {Bad(g)} \cup {[d |-> Take(f.d, j), off |-> p, s |-> FAIL, man |-> TRUE, cap |-> 0] : j \in {0, Len(f.d)}, p \in {0, Len(f.d)}}}
      [] OTHER -> {}
OEval(st, op, a) ==
    IF op = "hit" THEN IF st.h THEN {} ELSE {[r |-> <<>>, s |-> [st EXCEPT !.h = TRUE]]}
    ELSE {[r |-> o.r, s |-> [m |-> o.s, h |-> FALSE]] : o \in IF st.h THEN Lost(st.m, op, a) ELSE Eval(st.m, op, a)}
=============================================================================
