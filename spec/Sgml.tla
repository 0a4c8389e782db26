-------------------------------- MODULE Sgml --------------------------------
(* T02. Decoding replaces known, terminated entities and numeric references   *)
(* by what they stand for, unless told to skip it, and copies everything      *)
(* else. Encoding: any spelling that stands for the text, 7-bit, with no      *)
(* unwanted characters. Kinds of text: 0: UTF-16, 1: UTF-32.                  *)
EXTENDS Bytes, Entities
Start(a) == {<<>>}
Cut(u, lim) == LET v == IF lim < 0 THEN u ELSE Take(u, lim)
                   z == {i \in 1..Len(v) : v[i] = 0} IN
               IF z = {} THEN v ELSE SubSeq(v, 1, (CHOOSE i \in z : \A k \in z : i <= k) - 1)
Units(c, t) == IF t = 1 \/ c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Chars(x, t) == IF Len(x) = 1 THEN Units(x[1], t) ELSE Units(x[1], t) \o Units(x[2], t)
FlagChars == << {34}, {39}, {38}, {60, 62}, {92}, {36}, {37}, {64}, {35}, {40, 41}, {123, 125}, {91, 93} >>
RECURSIVE Flag(_, _)
Flag(f, i) == IF i > 12 THEN {} ELSE (IF f % 2 = 1 THEN FlagChars[i] ELSE {}) \cup Flag(f \div 2, i + 1)
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Num(_, _, _, _)
Num(n, i, r, v) == IF i > Len(n) THEN v ELSE IF Digit(n[i]) >= r THEN 0 ELSE Num(n, i + 1, r, Min2(1114112, v * r + Digit(n[i])))
\* spellings of what an entity (between & and ;) stands for, the first being the one to decode to; none if unknown
Stands(n) == IF n = <<>> \/ n[1] > 127 \/ n[1] < 1 THEN <<>>
             ELSE IF n[1] = 35
             THEN LET h == Len(n) > 1 /\ n[2] \in {120, 88}
                      v == IF Len(n) < (IF h THEN 3 ELSE 2) THEN 0 ELSE IF h THEN Num(n, 3, 16, 0) ELSE Num(n, 2, 10, 0) IN
                  IF v = 0 \/ v > 1114111 THEN <<>> ELSE <<<<v>>>>
             ELSE LET b == EntTable[n[1]] f == {i \in 1..Len(b) : b[i][1] = n} IN
                  IF f = {} THEN <<>> ELSE Tail(b[CHOOSE i \in f : TRUE])
\* where the entity starting at i ends; 0 if it does not
RECURSIVE End(_, _)
End(u, i) == IF i > Len(u) \/ u[i] = 38 THEN 0 ELSE IF u[i] = 59 THEN i ELSE End(u, i + 1)
\* <<text, points of mapping>>
RECURSIVE D(_, _, _, _, _, _)
D(u, i, t, fl, out, pts) ==
    IF i > Len(u) THEN <<out, pts>>
    ELSE LET e == IF u[i] = 38 THEN End(u, i + 1) ELSE 0
             x == IF e = 0 THEN <<>> ELSE Stands(SubSeq(u, i + 1, e - 1)) IN
         IF x = <<>> \/ (x # <<>> /\ x[1][1] \in fl) THEN D(u, i + 1, t, fl, Append(out, u[i]), pts)
         ELSE LET o == out \o Chars(x[1], t) IN D(u, e + 1, t, fl, o, pts \o << <<i - 1, Len(out)>>, <<e, Len(o)>> >>)
Dec(u, t, skip) == D(u, 1, t, Flag(skip, 1), <<>>, <<>>)
RECURSIVE ErrAt(_, _)
ErrAt(u, i) == IF i > Len(u) THEN -1 ELSE IF u[i] # 38 THEN ErrAt(u, i + 1)
               ELSE LET e == End(u, i + 1) IN IF e = 0 THEN i - 1 ELSE IF Stands(SubSeq(u, i + 1, e - 1)) = <<>> THEN i - 1 ELSE ErrAt(u, e + 1)
\* c is one half of a pair that is there as a whole: a reference has to stand for the character
Half(u, i, c) == (c \in 55296..56319 /\ i < Len(u) /\ u[i + 1] \in 56320..57343) \/ (c \in 56320..57343 /\ i > 1 /\ u[i - 1] \in 55296..56319)
\* does o spell u
RECURSIVE Spells(_, _, _, _, _, _, _)
Spells(o, j, u, i, t, fl, full) ==
    IF j > Len(o) THEN i > Len(u)
    ELSE IF i > Len(u) THEN FALSE
    ELSE IF o[j] # 38 THEN o[j] = u[i] /\ o[j] < 128 /\ o[j] \notin fl /\ (full => o[j] \notin EntAscii) /\ Spells(o, j + 1, u, i + 1, t, fl, full)
    ELSE LET e == End(o, j + 1) x == IF e = 0 THEN <<>> ELSE Stands(SubSeq(o, j + 1, e - 1)) IN
         \E k \in 1..Len(x) : ~(t = 0 /\ Len(x[k]) = 1 /\ Half(u, i, x[k][1])) /\ LET c == Chars(x[k], t) IN SubSeq(u, i, Min2(Len(u), i + Len(c) - 1)) = c /\ Spells(o, e + 1, u, i + Len(c), t, fl, full)
RECURSIVE Flat(_, _, _, _)
Flat(p, i, f, t) == IF i > Len(p) THEN <<>> ELSE <<p[i][1] + f, p[i][2] + t>> \o Flat(p, i + 1, f, t)
Cat(form) == form \in {0, 3, 5}
Bounded(form) == form \in {3, 4}
Eval(s, op, a) ==
    CASE op = "dec" ->   \* text, 1: from the same or 0: from char, form, skip, capacity, offsets (-1: no mapping), length of what is there already.., limit, text..
            LET t == a[1] pre == SubSeq(a, 9, 8 + a[8]) u == Cut(Drop(a, 9 + a[8]), a[9 + a[8]])
                d == Dec(u, t, a[4]) old == IF Cat(a[3]) THEN pre ELSE <<>> out == old \o d[1]
                m == IF a[6] < 0 THEN <<0>> ELSE <<Len(d[2])>> \o Flat(d[2], 1, a[6], a[7] + Len(old)) IN
            IF Bounded(a[3]) /\ Len(out) >= a[5] THEN {[r |-> <<EXC>>, s |-> s]}
            ELSE {[r |-> <<IF Bounded(a[3]) THEN Len(out) ELSE 0>> \o m \o out, s |-> s]}
      [] op = "err" -> {[r |-> <<ErrAt(Cut(Drop(a, 4), a[4]), 1)>>, s |-> s]}
      [] op = "enced" -> \* text, form, what, capacity, length of what is there already.., limit, length of text.., the spelling
            LET t == a[1] pre == SubSeq(a, 6, 5 + a[5]) p == 6 + a[5] u == Cut(SubSeq(a, p + 2, p + 1 + a[p + 1]), a[p]) o == Drop(a, p + 1 + a[p + 1])
                out == (IF Cat(a[2]) THEN pre ELSE <<>>) \o o IN
            IF ~Spells(o, 1, u, 1, t, Flag(a[3] % 4096, 1), a[3] >= 4096) THEN {}
            ELSE IF Bounded(a[2]) /\ Len(out) >= a[4] THEN {[r |-> <<EXC>>, s |-> s]}
            ELSE {[r |-> <<IF Bounded(a[2]) THEN Len(out) ELSE 0>> \o out, s |-> s]}
      [] op = "enc" -> {[r |-> <<>>, s |-> s]}   \* generator only
      [] OTHER -> {}
=============================================================================
