----------------------------- MODULE CacheTimes -----------------------------
(* S02: the times of a cached file are those of a plain file: t = <<created,   *)
(* accessed, modified>>. Without a build that keeps times (keep) they are what *)
(* was set. b: access times the source may have: what was read from the cache  *)
(* alone may be forgotten by a flush. w: written to since the last flush; when *)
(* it gets to the source, times set in between (e) may be overtaken, for now.  *)
(* NOW: the time of the operation; other numbers: seconds since 1970.          *)
EXTENDS Cache
NOW == -1
CStart(a) == {[m |-> x, t |-> <<NOW, NOW, NOW>>, b |-> {NOW}, w |-> FALSE, e |-> <<NOW, NOW>>, keep |-> FALSE] : x \in Start(a)}
Late(t, w) == IF w THEN {t, NOW} ELSE {t}
Kept(s, i) == IF s.keep /\ s.w THEN {s.t[i + 1], NOW, s.e[i]} ELSE {s.t[i + 1]}
After(s, op, a) ==
    LET c == s.t[1]  x == s.t[2]  y == s.t[3] IN
    CASE op \in {"read", "remainder"} ->
            {[s EXCEPT !.t = <<c, p, q>>, !.b = @ \cup {NOW}, !.e = <<p, @[2]>>] : p \in IF op = "read" /\ a[1] > 0 THEN {NOW} ELSE {x, NOW}, q \in Late(y, s.w)}
      [] op = "write" ->
            {[s EXCEPT !.t = <<c, p, q>>, !.b = @ \cup {NOW}, !.w = TRUE, !.e = <<p, q>>] : p \in IF a[1] > 0 THEN {NOW} ELSE {x, NOW}, q \in IF a[1] > 0 THEN {NOW} ELSE {y, NOW}}
      [] op = "truncate" -> {[s EXCEPT !.t = <<c, NOW, NOW>>, !.b = {NOW}, !.e = <<NOW, NOW>>]}
      [] op = "flush" -> {[s EXCEPT !.t = <<c, p, q>>, !.b = {p}, !.w = FALSE, !.e = <<p, q>>] : p \in {x} \cup s.b \cup Late(x, s.w), q \in Late(y, s.w)}
      [] OTHER -> {s}
CEval(s, op, a) ==
    CASE op = "config" -> {[r |-> <<>>, s |-> [s EXCEPT !.keep = a[1] = 1]]}
      [] op = "age" -> {[r |-> <<>>, s |-> [s EXCEPT !.t = a, !.b = {a[2]}, !.e = Tail(a)]]}
      [] op = "times" -> {[r |-> s.t, s |-> s]}
      [] op = "kept" -> {[r |-> <<s.t[1], p, q>>, s |-> s] : p \in Kept(s, 1), q \in Kept(s, 2)}
      [] OTHER -> {[r |-> o.r, s |-> [u EXCEPT !.m = o.s]] : o \in Eval(s.m, op, a), u \in IF s.keep THEN After(s, op, a) ELSE {s}}
=============================================================================
