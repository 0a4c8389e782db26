----------------------------- MODULE FileWindow -----------------------------
(* S04. A window [b, e) of a file with content d; off is the absolute offset  *)
(* (the window starts out where the file is).                                *)
EXTENDS Bytes
Start(a) == {[d |-> PatSeq(3, a[1]), off |-> a[2], b |-> a[3], e |-> a[3] + a[4]]}
In(s) == s.b <= s.off /\ s.off < s.e
Res(r, t) == {[r |-> r, s |-> t]}
Eval(s, op, a) ==
    LET m == IF In(s) THEN Min2(a[1], s.e - s.off) ELSE 0 IN
    CASE op = "read" -> LET k == Min2(m, Max2(0, Len(s.d) - s.off)) IN
            Res(<<k, IF k = 0 /\ a[1] > 0 THEN EOF ELSE OK>> \o Slice(s.d, s.off, k), [s EXCEPT !.off = @ + k])
      [] op = "write" -> IF a[1] = 0 THEN {[r |-> <<0, st>>, s |-> t] : st \in IF In(s) THEN {OK} ELSE {OK, FAIL},
                                                t \in {s} \cup IF In(s) THEN {[s EXCEPT !.d = Overwrite(@, s.off, <<>>)]} ELSE {}}
            ELSE IF m = 0 THEN Res(<<0, FAIL>>, s)
            ELSE Res(<<m, OK>>, [s EXCEPT !.d = Overwrite(@, s.off, PatSeq(a[2], m)), !.off = @ + m])
      [] op = "seek" -> LET p == (IF a[2] = 0 THEN s.b ELSE IF a[2] = 1 THEN s.off ELSE s.e) + a[1] IN
            IF p < s.b THEN Res(<<EXC>>, s) ELSE Res(<<p - s.b, OK>>, [s EXCEPT !.off = p])
      \* the file does a part of it only, or does not seek
      [] op = "readcut" -> LET k == Min2(a[2], Min2(m, Max2(0, Len(s.d) - s.off))) IN IF ~In(s) THEN Res(<<0, EOF>>, s) ELSE Res(<<k, a[3]>> \o Slice(s.d, s.off, k), [s EXCEPT !.off = @ + k])
      [] op = "writecut" -> LET k == Min2(a[2], m) IN IF ~In(s) THEN Res(<<0, FAIL>>, s) ELSE Res(<<k, a[3]>>, IF k = 0 THEN s ELSE [s EXCEPT !.d = Overwrite(@, s.off, PatSeq(7, k)), !.off = @ + k])
      [] op = "seekfail" -> IF (IF a[2] = 0 THEN s.b ELSE IF a[2] = 1 THEN s.off ELSE s.e) + a[1] < s.b THEN Res(<<EXC>>, s) ELSE Res(<<1, a[3]>>, s)
      [] op = "skip" -> Res(<<a[2]>>, IF a[2] = OK THEN [s EXCEPT !.off = @ + a[1]] ELSE s) \* a[2]: what comes of it in the file
      [] op = "tell" -> Res(<<IF s.off < s.b THEN -1 ELSE s.off - s.b, s.e - s.b>>, s)
      [] op = "truncate" -> Res(<<FAIL>>, s)
      [] op \in {"lock", "unlock"} -> IF a[1] < s.e - s.b THEN Res(<<OK, s.b + a[1], Min2(a[2], s.e - s.b - a[1])>>, s) ELSE Res(<<FAIL>>, s)
      [] op = "flush" -> Res(<<a[1], 1>>, s) \* reaches the file; the file says what came of it
      [] op = "close" -> Res(<<a[1], 2>>, s)
      [] op = "opened" -> Res(<<OK>>, s) \* the window starts in the state of the file
      [] op = "raw" -> Res(s.d, s)
      [] OTHER -> {}
=============================================================================
