-------------------------------- MODULE Num --------------------------------
(* D03. Numbers as digits to the base 256, the least significant first.      *)
EXTENDS Bytes, SequencesExt
D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
\* sums of digits' positions -> digits, n of them
Carry(c, n) == LET Step(x, i) == LET v == x.k + (IF i <= Len(c) THEN c[i] ELSE 0) IN [d |-> Append(x.d, v % 256), k |-> v \div 256] IN FoldLeft(Step, [d |-> <<>>, k |-> 0], [i \in 1..n |-> i]).d
Plus(a, b) == LET n == Max2(Len(a), Len(b)) + 1 IN Carry([i \in 1..n |-> D(a, i) + D(b, i)], n)
Times(a, b) == LET n == Len(a) + Len(b)
                   C(k) == FoldLeft(LAMBDA s, i : s + D(a, i) * D(b, k + 1 - i), 0, [i \in 1..Min2(k, Len(a)) |-> i]) IN Carry([k \in 1..n |-> C(k)], n)
Less(a, b) == LET n == Max2(Len(a), Len(b))  x == {i \in 1..n : D(a, i) # D(b, i)} IN x # {} /\ LET i == CHOOSE i \in x : \A j \in x : j <= i IN D(a, i) < D(b, i)
Fits(a, n) == \A i \in 1..Len(a) : i > n => a[i] = 0
Neg(a) == a[Len(a)] >= 128
Minus(a) == SubSeq(Carry(<<256 - a[1]>> \o [i \in 1..(Len(a) - 1) |-> 255 - a[i + 1]], Len(a)), 1, Len(a))
Abs(a) == IF Neg(a) THEN Minus(a) ELSE a
Zero(a) == \A i \in DOMAIN a : a[i] = 0
Pow(n) == Zeros(n) \o <<1>>                                                \* 256 ^ n
Half(n) == Zeros(n - 1) \o <<128>>
\* r is n * k / q, if that fits
Quotient(n, k, q, r, signed) ==
    IF signed
    THEN LET p == Times(Abs(n), Abs(k))  m == Times(Abs(r), Abs(q))  neg == (Neg(n) # Neg(k)) # Neg(q) IN
         IF Less(p, Times(Half(Len(n)), Abs(q)))
         THEN ~Less(p, m) /\ Less(p, Plus(m, Abs(q))) /\ (Zero(r) \/ Neg(r) = neg) ELSE TRUE
    ELSE LET p == Times(n, k)  m == Times(r, q) IN IF Less(p, Times(Pow(Len(n)), q)) THEN ~Less(p, m) /\ Less(p, Plus(m, q)) ELSE TRUE
Bits(a) == [i \in 0..(8 * Len(a) - 1) |-> (a[1 + i \div 8] \div 2 ^ (i % 8)) % 2]
Rotated(a, n) == LET b == Bits(a)  w == 8 * Len(a) IN
    [i \in 1..Len(a) |-> FoldLeft(LAMBDA s, j : s + b[(8 * (i - 1) + j + w - (n % w)) % w] * 2 ^ j, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
Half2(a) == <<SubSeq(a, 1, Len(a) \div 2), SubSeq(a, Len(a) \div 2 + 1, Len(a))>>
NStart(a) == {<<>>}
NEval(st, op, a) ==
    LET R(r) == {[r |-> r, s |-> st]} IN
    CASE op = "mul" -> LET h == Half2(a)  p == Times(h[1], h[2]) IN R(IF Fits(p, 8) THEN SubSeq(p, 1, 8) ELSE <<EXC>>)
      [] op = "add" -> LET h == Half2(a)  p == Plus(h[1], h[2]) IN R(IF Fits(p, 8) THEN SubSeq(p, 1, 8) ELSE <<EXC>>)
      [] op = "rol" -> R(Rotated(Tail(a), a[1]))
      \* signed?, bytes: three operands and the result
      [] op = "muldiv" -> LET w == (Len(a) - 1) \div 4  X(i) == SubSeq(a, 2 + w * i, 1 + w * (i + 1)) IN IF Quotient(X(0), X(1), X(2), X(3), a[1] = 1) THEN R(<<>>) ELSE {}
      [] op = "swap" -> R(Reverse(Tail(a)))                               \* type, bytes
      \* to little-endian, from little-endian, to big-endian, from big-endian: what memory holds
      [] op = "order" -> LET b == Tail(a) IN R(b \o b \o Reverse(b) \o Reverse(b))
      [] OTHER -> {}
=============================================================================
