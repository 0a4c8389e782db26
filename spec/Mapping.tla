------------------------------ MODULE Mapping ------------------------------
(* T06. A mapping's points <<from, to>>, increasing in both; type 0: unsigned, *)
(* 1: signed. Position x maps to as far from the image of the last point at or *)
(* before x as x is from the point; to no more than the first point's image    *)
(* when there is none. *)
EXTENDS Bytes
Points(a) == [i \in 1..(Len(a) \div 2) |-> <<a[2 * i - 1], a[2 * i]>>]
Start(a) == {[t |-> a[1], m |-> Points(Tail(a))]}
Conv(m, x, i, j) == LET at == {k \in 1..Len(m) : m[k][i] <= x} IN
    IF m = <<>> THEN x ELSE IF at = {} THEN Min2(x, m[1][j])
    ELSE LET k == CHOOSE k \in at : \A n \in at : n <= k IN m[k][j] + (x - m[k][i])
S2D(m, x) == Conv(m, x, 1, 2)
D2S(m, x) == Conv(m, x, 2, 1)
B(x) == IF x THEN 1 ELSE 0
Eval(s, op, a) ==
    CASE op = "s2d" -> {[r |-> <<S2D(s.m, a[1])>>, s |-> s]}
      [] op = "d2s" -> {[r |-> <<D2S(s.m, a[1])>>, s |-> s]}
      \* with the hint left by the previous ones; any place may be hinted next
      [] op \in {"s2dh", "d2sh"} -> {[r |-> <<IF op = "s2dh" THEN S2D(s.m, a[1]) ELSE D2S(s.m, a[1]), h>>, s |-> s] : h \in IF s.m = <<>> THEN {a[2]} ELSE 0..(Len(s.m) - 1)}
      \* operations of points: sum, inverse, equality
      [] op = "pts" -> {[r |-> <<a[1] + a[3], a[2] + a[4], a[2], a[1], B(a[1] = a[3] /\ a[2] = a[4]), B(a[1] # a[3] \/ a[2] # a[4]), a[1], a[1], 0, 0>>, s |-> s]}
      \* an interval, another one, an amount: the points contained of 0..15, size, emptiness, validity; sums and differences; moves
      [] op = "iv" -> LET b == a[1] e == a[2] x == a[5] IN
            {[r |-> [i \in 1..16 |-> B(b <= i - 1 /\ i - 1 < e)] \o <<IF b <= e THEN Cardinality(b..(e - 1)) ELSE 0, B(b >= e), B(b <= e)>>
                \o <<b + a[3], e + a[4], b - a[3], e - a[4]>> \o <<b + x, e + x, b - x, e - x>> \o <<b + x, e + x, b + x, e + x>> \o <<b - x, e - x, b - x, e - x>>
                \o <<b + 1, e + 1, b, e, b + 1, e + 1>> \o <<b - 1, e - 1, b, e, b - 1, e - 1>> \o <<B(b = a[3] /\ e = a[4]), B(b # a[3] \/ e # a[4])>>
                \o <<x, x, 0, 1, 0, 0, 1, 0>>, s |-> s]}
      [] OTHER -> {}
=============================================================================
