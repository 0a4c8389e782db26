------------------------------ MODULE DiagFile ------------------------------
(* S07. n files that are to behave the same: a byte array d with an offset.   *)
(* Event hit: during the operation that follows, one of the files returns     *)
(* something else than the others; after that, nothing is known.             *)
EXTENDS Bytes
Start(a) == {[n |-> a[1], d |-> PatSeq(3, a[2]), off |-> 0, hit |-> FALSE, gone |-> FALSE]}
Avail(s) == Max2(0, Len(s.d) - s.off)
Res(r, t) == {[r |-> r, s |-> t]}
None(s, op, a) ==
    CASE op \in {"read", "write"} -> Res(<<0, FAIL>>, s)
      [] op = "seek" -> Res(<<-1, FAIL>>, s)
      [] op = "tell" -> Res(<<-1, -1>>, s)
      [] op \in {"truncate", "lock", "unlock"} -> Res(<<FAIL>>, s)
      [] op \in {"flush", "close"} -> Res(<<OK>>, s) \cup Res(<<FAIL>>, s)
      [] op = "raw" -> Res(<<>>, s)
      [] OTHER -> {}
Same(s, op, a) ==
    CASE op = "read" -> LET k == Min2(a[1], Avail(s)) IN
            Res(<<k, IF k = 0 /\ a[1] > 0 THEN EOF ELSE OK>> \o Slice(s.d, s.off, k), [s EXCEPT !.off = @ + k])
      [] op = "write" -> Res(<<a[1], OK>>, [s EXCEPT !.d = Overwrite(@, s.off, PatSeq(a[2], a[1])), !.off = @ + a[1]])
      [] op = "seek" -> LET p == (IF a[2] = 0 THEN 0 ELSE IF a[2] = 1 THEN s.off ELSE Len(s.d)) + a[1] IN
            IF p < 0 THEN Res(<<EXC>>, s) ELSE Res(<<p, OK>>, [s EXCEPT !.off = p])
      [] op = "tell" -> Res(<<s.off, Len(s.d)>>, s)
      [] op = "truncate" -> Res(<<OK>>, [s EXCEPT !.d = IF s.off <= Len(@) THEN Take(@, s.off) ELSE Overwrite(@, s.off, <<>>)])
      [] op \in {"lock", "unlock"} -> Res(<<OK>>, s)
      [] op \in {"flush", "close"} -> Res(<<OK>>, s)
      [] op = "raw" -> Res(Concat([i \in 1..s.n |-> s.d]), s)       \* the content of all files
      [] op = "applied" -> Res([i \in 1..s.n |-> 1], s)               \* how many times each file did the last operation
      [] OTHER -> {}
\* in case of divergence: an exception, or failure
Differ(s, op) == Res(<<EXC>>, [s EXCEPT !.gone = TRUE])
                 \cup (IF op \in {"read", "write"} THEN {[r |-> <<k, FAIL>>, s |-> [s EXCEPT !.gone = TRUE]] : k \in {0}}
                       ELSE IF op = "seek" THEN Res(<<-1, FAIL>>, [s EXCEPT !.gone = TRUE])
                       ELSE IF op = "tell" THEN {} ELSE Res(<<FAIL>>, [s EXCEPT !.gone = TRUE]))
Eval(s, op, a) ==
    IF s.gone THEN {}
    ELSE IF op = "hit" THEN Res(<<>>, [s EXCEPT !.hit = TRUE])
    ELSE IF s.hit THEN Differ(s, op)
    ELSE IF s.n = 0 THEN None(s, op, a) ELSE Same(s, op, a)
=============================================================================
