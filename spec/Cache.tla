-------------------------------- MODULE Cache --------------------------------
(* S02. A cached file is a plain file: a byte array d and an offset. Events:  *)
(*   hit   a call to the cached file's source failed (or was cut short)       *)
(*         during the operation that follows: it may fail, but not lie        *)
(*   raw   what the source contains after a flush or destruction that went    *)
(*         well (clean): all there is                                         *)
EXTENDS Bytes
Start(a) == {[d |-> PatSeq(3, a[2]), off |-> a[3], hit |-> FALSE, clean |-> FALSE, gone |-> FALSE]}
Avail(s) == Max2(0, Len(s.d) - s.off)
Done(r, s) == [r |-> r, s |-> [s EXCEPT !.hit = FALSE, !.clean = FALSE]]
Read(s, n) ==
    LET m == Min2(n, Avail(s))
        ks == IF s.hit THEN 0..m ELSE {m}
        sts(k) == (IF k > 0 \/ n = 0 THEN {OK} ELSE {}) \cup (IF Avail(s) = 0 /\ n > 0 THEN {EOF} ELSE {}) \cup (IF s.hit /\ (k < n \/ n = 0) THEN {FAIL} ELSE {})
    IN {x \in UNION {{Done(<<k, st>> \o Slice(s.d, s.off, k), [s EXCEPT !.off = @ + k]) : st \in sts(k)} : k \in ks} :
            n > 0 /\ x.r[1] > 0 => x.r[2] # EOF}
\* writing nothing past the end may extend the file, or not
Put(s, b) == IF b = <<>> THEN {s, [s EXCEPT !.d = Overwrite(@, s.off, <<>>)]} ELSE {[s EXCEPT !.d = Overwrite(@, s.off, b), !.off = @ + Len(b)]}
Write(s, tag, n) ==
    LET ks == IF s.hit THEN 0..n ELSE {n}
    IN UNION {UNION {{Done(<<k, st>>, t) : t \in Put(s, PatSeq(tag, k))} : st \in IF ~s.hit THEN {OK} ELSE IF k < n THEN {FAIL} ELSE {OK, FAIL}} : k \in ks}
ReadAll(s, n) ==       \* repeats reading until n are read
    LET m == Min2(n, Avail(s))
        ks == IF s.hit THEN 0..m ELSE {m}
    IN {Done(<<k, st>> \o Slice(s.d, s.off, k), [s EXCEPT !.off = @ + k]) : <<k, st>> \in
           {<<k, st>> \in ks \X {OK, EOF, FAIL} : /\ (st = OK => k = n) /\ (k = n /\ (n > 0 \/ ~s.hit) => st = OK) /\ (st = EOF => k = Avail(s)) /\ (st = FAIL => s.hit)}}
Eval(s, op, a) ==
    IF s.gone /\ op \notin {"raw", "kept"} THEN {} ELSE
    CASE op = "hit" -> {[r |-> <<>>, s |-> [s EXCEPT !.hit = TRUE]]}
      [] op = "read" -> Read(s, a[1])
      [] op = "write" -> Write(s, a[2], a[1])
      [] op = "remainder" -> ReadAll(s, Avail(s))
      [] op = "seek" -> LET p == (IF a[2] = 0 THEN 0 ELSE IF a[2] = 1 THEN s.off ELSE Len(s.d)) + a[1] IN
            IF p < 0 THEN {Done(<<EXC>>, s)} ELSE {Done(<<p, OK>>, [s EXCEPT !.off = p])}
      [] op = "skip" -> {Done(<<OK>>, [s EXCEPT !.off = @ + a[1]])}
      [] op = "tell" -> {Done(<<s.off, Len(s.d)>>, s)}
      [] op = "truncate" -> {Done(<<OK>>, [s EXCEPT !.d = IF s.off <= Len(@) THEN Take(@, s.off) ELSE Overwrite(@, s.off, <<>>)])}
                            \cup (IF s.hit THEN {Done(<<FAIL>>, s)} ELSE {})
      [] op \in {"flush", "close"} -> {[Done(<<OK>>, s) EXCEPT !.s.clean = TRUE]}
                            \cup (IF ~s.hit THEN {} ELSE IF op = "flush" THEN {Done(<<FAIL>>, s)} ELSE {Done(<<EXC>>, s)})
      [] op = "destroy" -> {[Done(<<OK>>, s) EXCEPT !.s.clean = TRUE, !.s.gone = TRUE]} \cup (IF s.hit THEN {[Done(<<EXC>>, s) EXCEPT !.s.gone = TRUE]} ELSE {})
      \* locks are those of the source (which refuses some)
      [] op \in {"lock", "unlock"} -> {[r |-> <<IF a[1] % 5 = 4 THEN FAIL ELSE OK, IF op = "lock" THEN 1 ELSE 2, a[1], a[2]>>, s |-> s]}
      [] op = "config" -> {[r |-> <<>>, s |-> s]}
      [] op = "kept" -> {[r |-> <<x, y, z>>, s |-> s] : x \in {-1}, y \in {-1}, z \in {-1}} \* see CacheTimes
      [] op = "raw" -> IF s.clean /\ a[1] \in {-1, s.off} /\ Tail(a) = s.d THEN {Done(<<>>, s)} ELSE {}
      [] OTHER -> {}
=============================================================================
