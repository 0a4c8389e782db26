-------------------------------- MODULE Rec --------------------------------
(* S11. Records: id, size, data, padding to a multiple of the alignment.       *)
(* d: the file, p: position, stk: starts of the records being written. After   *)
(* reading what is not there, position and state are not specified (lost: the  *)
(* position is nowhere in the file).                                           *)
(* Kind: 1: ids and sizes of 4 bytes, alignment 2; 2: 2 bytes, 4; 3: 4, 1.     *)
(* Interface 0: file, 1: stream, 2: standard library's streams.                *)
EXTENDS Bytes
IdLen(s) == <<4, 2, 4>>[s.kind]
Al(s) == <<2, 4, 1>>[s.kind]
Head0(s) == 2 * IdLen(s)
Num(s, n) == IF IdLen(s) = 2 THEN LE16(n) ELSE LE32(n)
Size(s, p) == LET b == Slice(s.d, p, IdLen(s)) IN IF Len(b) = 2 THEN FromLE(b) ELSE LenPrefix(b)
Pad(s, n) == (Al(s) - (n % Al(s))) % Al(s)
Blank == [kind |-> 1, iface |-> 0, d |-> <<>>, p |-> 0, stk |-> <<>>, lost |-> FALSE]
Start(a) == {[Blank EXCEPT !.kind = a[1], !.iface = a[2], !.d = Drop(a, 2)]}
Put(s, b) == [s EXCEPT !.d = Overwrite(@, s.p, b), !.p = @ + Len(b)]
\* the first record from p on, of those that start before e, with this id: the position of its size, or -1
RECURSIVE FindFrom(_, _, _, _)
FindFrom(s, id, p, e) ==
    IF (e >= 0 /\ p >= e) \/ p + IdLen(s) > Len(s.d) THEN -1
    ELSE IF Slice(s.d, p, IdLen(s)) = Num(s, id) THEN p + IdLen(s)
    ELSE IF p + Head0(s) > Len(s.d) THEN -1
    ELSE LET n == Size(s, p + IdLen(s)) IN FindFrom(s, id, p + Head0(s) + n + Pad(s, n), e)
Loose(s, rest) == {[r |-> <<st, p>> \o rest, s |-> [s EXCEPT !.p = p]] : st \in {OK, EOF, FAIL}, p \in 0..(Len(s.d) + 8)}
    \cup {[r |-> <<st, p>> \o rest, s |-> [s EXCEPT !.lost = TRUE]] : st \in {OK, EOF, FAIL}, p \in {9999, -1}}
At(s, p, rest) == {[r |-> <<OK, p>> \o rest, s |-> [s EXCEPT !.p = p]]}
Eval(s, op, a) ==
    CASE op = "seek" -> {[r |-> <<>>, s |-> [s EXCEPT !.p = a[1], !.lost = FALSE]]}
      [] s.lost -> IF op = "dump" THEN {[r |-> s.d, s |-> s]} ELSE {}
      [] op = "open" -> {[r |-> <<s.p>>, s |-> [Put(s, Num(s, a[1]) \o Num(s, 0)) EXCEPT !.stk = Append(@, s.p)]]}
      [] op = "bytes" -> {[r |-> <<>>, s |-> Put(s, a)]}
      [] op = "fill" -> {[r |-> <<>>, s |-> Put(s, Fill(a[2], a[1]))]}
      [] op = "close" -> IF s.stk = <<>> THEN {} ELSE
            LET b == s.stk[Len(s.stk)] n == s.p - b - Head0(s) t == Put(s, Zeros(Pad(s, n))) IN
            {[r |-> <<t.p>>, s |-> [t EXCEPT !.d = Overwrite(@, b + IdLen(s), Num(s, n)), !.stk = SubSeq(@, 1, Len(@) - 1)]]}
      [] op = "put" -> LET n == Len(a) - 1 t == Put(s, Num(s, a[1]) \o Num(s, n) \o Tail(a) \o Zeros(Pad(s, n))) IN {[r |-> <<OK, t.p>>, s |-> t]}
      \* everything in the file
      [] op = "dump" -> {[r |-> s.d, s |-> s]}
      \* a: id, limit (or -1)
      [] op = "find" -> LET q == FindFrom(s, a[1], s.p, a[2]) IN IF q >= 0 THEN At(s, q, <<1>>) ELSE Loose(s, <<0>>)
      [] op = "id" -> IF a[1] >= 0 /\ s.p >= a[1] THEN At(s, s.p, <<0>>)
            ELSE IF s.p + IdLen(s) > Len(s.d) THEN Loose(s, <<0>>) ELSE At(s, s.p + IdLen(s), <<1>> \o Slice(s.d, s.p, IdLen(s)))
      [] op = "ignore" -> IF s.p + IdLen(s) > Len(s.d) THEN Loose(s, <<0>>) ELSE
            LET n == Size(s, s.p) q == s.p + IdLen(s) + n + Pad(s, n) IN IF q > Len(s.d) THEN Loose(s, <<0>>) \cup Loose(s, <<1>>) ELSE At(s, q, <<1>>)
      \* the reader of the data asks for so many bytes
      [] op = "get" -> IF s.p + IdLen(s) > Len(s.d) THEN Loose(s, <<0>>) ELSE
            LET n == Size(s, s.p) q == s.p + IdLen(s) x == Slice(s.d, q, Min2(a[1], n)) e == q + n + Pad(s, n) IN
            \* interface 2: "should not read past the record data" is left to the reader
            IF s.iface = 2 /\ (a[1] > n \/ e > Len(s.d)) THEN {[r |-> <<c>>, s |-> [s EXCEPT !.lost = TRUE]] : c \in {-2}}
            ELSE IF e > Len(s.d) THEN Loose(s, <<Len(x)>> \o x) ELSE At(s, e, <<Len(x)>> \o x)
      [] OTHER -> {}
=============================================================================
