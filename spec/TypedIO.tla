------------------------------ MODULE TypedIO ------------------------------
(* S06. Typed I/O over a tape: bytes d, of which p have been read; writing    *)
(* appends, up to cap (-1: no limit). fin: what the end of the tape gives.    *)
(* Whatever chunks the tape is read in does not show.                         *)
EXTENDS Bytes
LOCAL INSTANCE SequencesExt
Start(a) == {[d |-> SubSeq(a, 4, Len(a)), p |-> 0, s |-> OK, fin |-> IF a[2] = 2 THEN FAIL ELSE EOF, cap |-> a[3]]}
Left(s) == Len(s.d) - s.p
End(s) == [s EXCEPT !.p = Len(s.d), !.s = s.fin]
Res(r, t) == {[r |-> r, s |-> t]}
Size(t) == <<1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 1>>[t]
\* ----- decoding, from position p: [ok, v (flat list of numbers), p]
No == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Raw(d, p, n) == IF Len(d) - p >= n THEN [ok |-> TRUE, v |-> Slice(d, p, n), p |-> p + n] ELSE No
Num(d, p) == IF Len(d) - p >= 4 THEN LenPrefix(Slice(d, p, 4)) ELSE 0
Str(d, p, c) == IF Len(d) - p < 4 THEN No ELSE Raw(d, p + 4, Num(d, p) * c)
RECURSIVE Many(_, _, _, _)      \* n elements, each decoded by F, as a list of lists
Many(F(_, _), d, p, n) == IF n = 0 THEN [ok |-> TRUE, v |-> <<>>, p |-> p]
                          ELSE LET x == F(d, p) IN
                               IF ~x.ok THEN No ELSE LET y == Many(F, d, x.p, n - 1) IN
                               IF ~y.ok THEN No ELSE [ok |-> TRUE, v |-> <<x.v>> \o y.v, p |-> y.p]
Coll(F(_, _), d, p) == IF Len(d) - p < 4 THEN No ELSE IF Num(d, p) > Len(d) THEN No ELSE Many(F, d, p + 4, Num(d, p))
RECURSIVE Lex(_, _)             \* order of byte strings
Lex(a, b) == IF a = <<>> THEN b # <<>> ELSE b # <<>> /\ (Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Lex(Tail(a), Tail(b))))
BE(a, b) == Lex(Reverse(a), Reverse(b))
Count(v) == LE32(Len(v))
\* the values of a collection, flattened: the number of them, then each
FlatS(v) == Count(v) \o Concat([i \in 1..Len(v) |-> LE32(Len(v[i])) \o v[i]])
Flat(v) == Count(v) \o Concat(v)
Sorted(S, L(_, _)) == SetToSortSeq(S, L)
Scalar2(d, p) == Raw(d, p, 2)
Str1(d, p) == Str(d, p, 1)
Vec2(d, p) == LET x == Coll(Scalar2, d, p) IN [x EXCEPT !.v = Flat(x.v)]
\* kind of collection -> decoded, as its flat form
Decode(kind, d, p) ==
    CASE kind < 20 -> LET F(e, q) == Raw(e, q, Size(kind)) x == Coll(F, d, p) IN [x EXCEPT !.v = Flat(x.v)]   \* vector of scalars
      [] kind = 20 -> LET x == Coll(Str1, d, p) IN [x EXCEPT !.v = FlatS(x.v)]                               \* vector of strings
      [] kind = 21 -> LET x == Coll(Vec2, d, p) IN [x EXCEPT !.v = Flat(x.v)]                                \* vector of vectors of uint16
      [] kind = 22 -> LET x == Coll(Scalar2, d, p) IN [x EXCEPT !.v = Flat(Sorted(ToSet(x.v), BE))]          \* set of uint16
      [] kind = 23 -> LET x == Coll(Str1, d, p) IN [x EXCEPT !.v = FlatS(Sorted(ToSet(x.v), Lex))]           \* set of strings
      [] kind = 24 -> LET x == Coll(Scalar2, d, p) IN [x EXCEPT !.v = Flat(SortSeq(x.v, BE))]                \* multiset of uint16
      [] OTHER -> No
Get(s, x) == IF s.s # OK THEN Res(<<s.s>>, s)              \* does nothing once the state is not ok
             ELSE IF x.ok THEN Res(<<OK>> \o x.v, [s EXCEPT !.p = x.p])
             ELSE Res(<<s.fin>>, End(s)) \cup Res(<<EXC>>, End(s))     \* may not have the memory for what is announced but missing
\* appends b (written in any number of steps)
PutB(s, b) == IF s.s # OK THEN s
              ELSE IF s.cap >= 0 /\ Len(s.d) + Len(b) > s.cap THEN [s EXCEPT !.d = @ \o Take(b, Max2(0, s.cap - Len(@))), !.s = FAIL]
              ELSE [s EXCEPT !.d = @ \o b]
Put(s, b) == LET t == PutB(s, b) IN Res(<<t.s>> \o Drop(t.d, Len(s.d)), t)
ReadAll(s, n) == IF Left(s) >= n THEN [b |-> Slice(s.d, s.p, n), t |-> [s EXCEPT !.p = @ + n, !.s = OK]] ELSE [b |-> Drop(s.d, s.p), t |-> End(s)]
\* lines of units of c bytes
Unit(s, c, i) == Slice(s.d, s.p + (i - 1) * c, c)
U(v, c) == <<v>> \o Zeros(c - 1)
ReadLn(s, c) ==
    LET n == Left(s) \div c
        nls == {i \in 1..n : Unit(s, c, i) = U(10, c)}
        nl == IF nls = {} THEN 0 ELSE CHOOSE i \in nls : \A j \in nls : i <= j
        cr(i) == i >= 1 /\ Unit(s, c, i) = U(13, c)
        lens == IF nl > 0 THEN {IF cr(nl - 1) THEN nl - 2 ELSE nl - 1}
                ELSE {n} \cup (IF cr(n) /\ Left(s) % c > 0 THEN {n - 1} ELSE {})     \* half a unit at the end: not specified
    IN {[r |-> <<k, IF nl > 0 THEN OK ELSE s.fin>> \o Slice(s.d, s.p, k * c), s |-> IF nl > 0 THEN [s EXCEPT !.p = @ + nl * c, !.s = OK] ELSE End(s)] : k \in lens}
Bom(b) == IF Len(b) >= 4 /\ Take(b, 4) = <<255, 254, 0, 0>> THEN <<4, 4>>
          ELSE IF Len(b) >= 2 /\ Take(b, 2) = <<255, 254>> THEN <<2, 2>>
          ELSE IF Len(b) >= 3 /\ Take(b, 3) = <<239, 187, 191>> THEN <<1, 3>> ELSE <<0, 0>>
RECURSIVE Digs(_)
Digs(n) == IF n < 10 THEN <<48 + n>> ELSE Digs(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<45>> \o Digs(-n) ELSE Digs(n)
Wide(c, t) == [i \in 1..(c * Len(t)) |-> IF (i - 1) % c = 0 THEN t[1 + ((i - 1) \div c)] ELSE 0]
Eval(s, op, a) ==
    CASE op = "load" -> Res(<<>>, [s EXCEPT !.d = @ \o a])
      [] op = "flush" -> Res(<<OK>>, [s EXCEPT !.s = OK])
      [] op = "get" -> Get(s, Raw(s.d, s.p, Size(a[1])))
      [] op = "getstr" -> Get(s, Str(s.d, s.p, a[1]))
      [] op = "getcoll" -> Get(s, Decode(a[1], s.d, s.p))
      [] op = "put" -> Put(s, Tail(a))                                    \* type, bytes of the value
      [] op = "putstr" -> Put(s, LE32((Len(a) - 2) \div a[1]) \o Drop(a, 2))   \* size of char, as what, bytes
      [] op = "putcoll" ->                                               \* kind, the collection as a vector would be stored
            LET x == Decode(IF a[1] = 22 \/ a[1] = 24 THEN 6 ELSE IF a[1] = 23 THEN 20 ELSE a[1], Tail(a), 0)
                y == Decode(a[1], Tail(a), 0) IN IF x.ok /\ x.p = Len(a) - 1 THEN Put(s, y.v) ELSE {}
      [] op = "array" -> LET x == ReadAll(s, a[1] * a[2]) k == Len(x.b) \div a[1] IN Res(<<k, x.t.s>> \o Take(x.b, k * a[1]), x.t)
      [] op = "remainder" -> LET x == ReadAll(s, IF a[1] < 0 THEN Left(s) + 1 ELSE a[1]) IN
            IF a[1] = 0 THEN UNION {Res(<<0, y>>, [s EXCEPT !.s = y]) : y \in {OK, s.s}} ELSE Res(<<Len(x.b), x.t.s>> \o x.b, x.t)
      [] op = "skip" -> LET x == ReadAll(s, a[1]) IN Res(<<x.t.s>>, x.t)
      [] op = "byte" -> IF Left(s) > 0 THEN Res(<<s.d[s.p + 1]>>, [s EXCEPT !.p = @ + 1, !.s = OK]) ELSE Res(<<EXC>>, End(s))
      [] op = "readln" -> ReadLn(s, a[1])
      [] op = "fill" ->                                                  \* byte, amount
            IF a[2] = 0 THEN UNION {Res(<<y>>, [s EXCEPT !.s = y]) : y \in {OK, s.s}} ELSE
            LET t == PutB([s EXCEPT !.s = OK], Fill(a[1], a[2])) IN Res(<<t.s>> \o Drop(t.d, Len(s.d)), t)
      \* amount (-1: all), how the other tape ends (1 eof, 2 failure), how much of it was taken, its content: copies it here
      [] op = "copy" ->
            LET src == Drop(a, 3) n == Len(src) am == a[1] whole == am < 0 \/ am > n        \* meets the end of the other
                m == IF whole THEN n ELSE am
                b == Take(src, m)
                t == PutB([s EXCEPT !.s = OK], b)
                w == Len(t.d) - Len(s.d)
                e == IF t.s = FAIL THEN FAIL ELSE IF whole /\ a[2] = 2 THEN FAIL ELSE OK
            IN IF w <= a[3] /\ a[3] <= m /\ (t.s = OK => a[3] = m) THEN Res(<<w, e>> \o Drop(t.d, Len(s.d)), [t EXCEPT !.s = e]) ELSE {}
      \* "<%d|%s>" in characters of so many bytes: number, text
      [] op = "print" -> LET b == Wide(a[1], <<60>> \o Decimal(a[2]) \o <<124>> \o Drop(a, 2) \o <<62>>)
                             t == PutB([s EXCEPT !.s = OK], b) w == Len(t.d) - Len(s.d) IN Res(<<w \div a[1], t.s>> \o Drop(t.d, Len(s.d)), t)
      \* a text as characters of so many bytes, with an encoder between charsets that differ in that size only
      [] op = "encode" -> IF s.s # OK THEN Res(<<0, s.s>>, s) ELSE
            IF Len(a) = 1 THEN Res(<<0, OK>>, s) ELSE
            LET t == PutB(s, Wide(a[1], Tail(a))) w == Len(t.d) - Len(s.d) IN Res(<<w \div a[1], t.s>> \o Drop(t.d, Len(s.d)), t)
      [] op = "bom" -> Res(Bom(a), s)
      \* after a failure: written or not
      [] op = "putbom" -> LET b == CASE a[1] = 4 -> <<255, 254, 0, 0>> [] a[1] = 2 -> <<255, 254>> [] a[1] = 1 -> <<239, 187, 191>> [] OTHER -> <<>> IN
            Put(s, b) \cup (IF b = <<>> THEN {} ELSE LET t == PutB([s EXCEPT !.s = OK], b) IN Res(<<t.s>> \o Drop(t.d, Len(s.d)), t))
      [] OTHER -> {}
=============================================================================
