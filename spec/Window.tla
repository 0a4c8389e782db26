------------------------------- MODULE Window -------------------------------
(* S04. A limiter (kind 0) or a window (kind 1) over a device (see vf::dev):  *)
(* rl, wl: bytes that may still be read and written (-1: no limit); ro, wo:   *)
(* bytes to be skipped and discarded first. Payload written is Pat(4, 0..),   *)
(* acc of it consumed; what is read is Pat(3, 0..).                           *)
EXTENDS Bytes
Start(a) == {[kind |-> a[1], ro |-> a[2], rl |-> a[3], wo |-> a[4], wl |-> a[5],
              total |-> a[6], fin |-> IF a[7] = 2 THEN FAIL ELSE EOF, chunk |-> a[8], wlimit |-> a[9], wmode |-> a[10], wchunk |-> a[11],
              lo |-> 0, hi |-> 0, acc |-> 0, del |-> 0]}
\* the device has been read up to somewhere in lo..hi (they differ only past the end of the window)
Left(s) == s.total - s.lo
Lim(l, n) == IF l < 0 THEN n ELSE Min2(l, n)
Less(l, k) == IF l < 0 THEN l ELSE l - k
Go(s, k) == [s EXCEPT !.lo = @ + k, !.hi = IF k = 0 THEN @ ELSE s.lo + k, !.rl = Less(@, k)]
\* states after the leading part is skipped
Skipped(s) == [s EXCEPT !.lo = @ + s.ro, !.hi = s.lo + s.ro, !.ro = 0]
Out(s) == {[s EXCEPT !.lo = s.total, !.hi = s.total, !.ro = x] : x \in {s.ro, s.ro - Left(s)}}
ReadIn(s, n) ==
    LET m == Lim(s.rl, n)
        ks == IF m = 0 \/ Left(s) = 0 THEN {0} ELSE IF s.chunk = 0 THEN {Min2(m, Left(s))} ELSE 1..Min2(m, Left(s)) IN
    IF n > 0 /\ m = 0
    THEN {[r |-> <<0, EOF, 0, s.ro>>, s |-> [s EXCEPT !.hi = IF s.kind = 1 THEN Min2(s.total, @ + n) ELSE @]]}
    ELSE {LET t == Go(s, k) IN [r |-> <<k, IF k = 0 /\ n > 0 THEN s.fin ELSE OK, t.rl, t.ro>> \o [i \in 1..k |-> Pat(3, s.lo + i - 1)], s |-> t] : k \in ks}
Read(s, n) ==
    IF s.ro = 0 THEN ReadIn(s, n)
    ELSE (IF s.ro > Left(s) THEN {[r |-> <<0, s.fin, t.rl, t.ro>>, s |-> t] : t \in Out(s)} ELSE ReadIn(Skipped(s), n))
         \cup (IF n = 0 THEN ReadIn(s, 0) ELSE {})
\* skipping n > 0 bytes
SkipIn(s, n) ==
    LET m == Lim(s.rl, n) IN
    IF m <= Left(s) THEN {LET t == Go(s, m) IN
            [r |-> <<IF m < n THEN EOF ELSE OK, t.rl, t.ro>>, s |-> [t EXCEPT !.hi = IF s.kind = 1 /\ m < n THEN Min2(s.total, @ + n) ELSE @]]}
    ELSE {LET t == Go(s, Left(s)) IN [r |-> <<s.fin, t.rl, t.ro>>, s |-> t]}
Skip(s, n) == IF s.ro = 0 THEN SkipIn(s, n)
              ELSE IF s.ro > Left(s) THEN {[r |-> <<s.fin, t.rl, t.ro>>, s |-> t] : t \in Out(s)} ELSE SkipIn(Skipped(s), n)
\* what the device does with m bytes: how many it takes, and its state
Dev(s, m) ==
    LET room == IF s.wlimit < 0 THEN m ELSE s.wlimit - s.del IN
    {x \in {[k |-> k, st |-> st] : k \in (IF s.wchunk > 0 /\ m > 0 THEN {0} \cup 1..Min2(m, room) ELSE {Min2(m, room)}), st \in {OK, FAIL}} :
        /\ (s.wchunk > 0 /\ room > 0 /\ m > 0 => x.k > 0)
        /\ (x.st = FAIL <=> room < m /\ (s.wmode = 1 \/ x.k = 0))}
Write(s, n) ==
    LET h == Min2(s.wo, n)
        m == Lim(s.wl, n - h) IN
    IF n = 0 THEN {[r |-> <<0, OK, s.wl, s.wo>>, s |-> s]}
    ELSE IF h = n \/ (m = 0 /\ s.kind = 1) THEN {[r |-> <<n, OK, s.wl, s.wo - h>>, s |-> [s EXCEPT !.wo = @ - h, !.acc = @ + n]]}
    ELSE IF m = 0 THEN {[r |-> <<0, FAIL, s.wl, s.wo>>, s |-> s]}
    ELSE {LET t == [s EXCEPT !.wo = 0, !.wl = Less(@, x.k), !.del = @ + x.k, !.acc = @ + c]
          IN [r |-> <<c, x.st, t.wl, t.wo>> \o [i \in 1..x.k |-> Pat(4, s.acc + h + i - 1)], s |-> t]
          : <<x, c>> \in {<<y, d>> \in Dev(s, m) \X (0..n) : d = h + (IF y.k < m \/ s.kind = 0 THEN y.k ELSE n - h)}}
Eval(s, op, a) ==
    CASE op = "read" -> Read(s, a[1])
      [] op = "skip" -> Skip(s, a[1])
      [] op = "write" -> Write(s, a[1])
      [] op = "flush" -> {[r |-> <<OK, 1, 0>>, s |-> s]}
      [] op = "close" -> {[r |-> <<OK, 0, 1>>, s |-> s]}
      [] op = "rest" -> {[r |-> <<p>>, s |-> s] : p \in s.lo..s.hi}
      [] OTHER -> {}
Sane(s) == s.lo <= s.hi /\ s.hi <= s.total /\ s.del <= s.acc /\ s.rl >= -1 /\ s.wl >= -1 /\ s.ro >= 0 /\ s.wo >= 0
=============================================================================
