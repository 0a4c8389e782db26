------------------------------ MODULE Charset ------------------------------
(* Converting text between character sets. Text is a sequence of code       *)
(* points; a character set gives the code units of each. Charsets: 0 ASCII  *)
(* (the system one in the "C" locale), 2 UTF-8, 3 UTF-16, 4 UTF-32,         *)
(* 5..7 Windows 1250..1252, 1 UTF-7. There are many UTF-7 spellings of a text: *)
(* which one is written is left to the encoder, but it must be complete, and *)
(* reads back as the text. An encoder appends to the destination. After a    *)
(* failure it may be in the middle of a character until it is cleared.       *)
EXTENDS Bytes, SequencesExt, CodePages
Scalar(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Page(cs) == IF cs = 5 THEN CP1250 ELSE IF cs = 6 THEN CP1251 ELSE CP1252
Bad == <<-1>>                                                             \* not a code unit sequence
Enc1(cs, c) ==
    IF ~Scalar(c) THEN Bad
    ELSE CASE cs = 0 -> IF c < 128 THEN <<c>> ELSE Bad
      [] cs = 2 -> IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
                   ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                   ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] cs = 3 -> IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
      [] cs = 4 -> <<c>>
      [] OTHER -> IF c < 128 THEN <<c>> ELSE LET p == {i \in 1..128 : Page(cs)[i] = c} IN IF p = {} THEN Bad ELSE <<127 + CHOOSE i \in p : TRUE>>
Cont(b) == b >= 128 /\ b < 192
\* the first code point of units s, with its length; -1 when there is none
Dec1(cs, s) == LET a == s[1]  bad == <<-1, 1>> IN
    CASE cs = 0 -> IF a < 128 THEN <<a, 1>> ELSE bad
      [] cs = 2 -> LET c(i) == IF Len(s) >= i /\ Cont(s[i]) THEN s[i] - 128 ELSE -999999999
                       min(v, lo, n) == IF v >= lo /\ Scalar(v) THEN <<v, n>> ELSE bad IN
                   IF a < 128 THEN <<a, 1>> ELSE IF a < 194 THEN bad
                   ELSE IF a < 224 THEN min((a - 192) * 64 + c(2), 128, 2)
                   ELSE IF a < 240 THEN IF c(2) < 0 \/ c(3) < 0 THEN bad ELSE min((a - 224) * 4096 + c(2) * 64 + c(3), 2048, 3)
                   ELSE IF a < 245 THEN IF c(2) < 0 \/ c(3) < 0 \/ c(4) < 0 THEN bad ELSE min((a - 240) * 262144 + c(2) * 4096 + c(3) * 64 + c(4), 65536, 4)
                   ELSE bad
      [] cs = 3 -> IF a >= 55296 /\ a < 56320 THEN IF Len(s) > 1 /\ s[2] >= 56320 /\ s[2] < 57344 THEN <<65536 + (a - 55296) * 1024 + (s[2] - 56320), 2>> ELSE bad
                   ELSE IF Scalar(a) THEN <<a, 1>> ELSE bad
      [] cs = 4 -> IF Scalar(a) THEN <<a, 1>> ELSE bad
      [] OTHER -> IF a < 128 THEN <<a, 1>> ELSE <<Page(cs)[a - 127], 1>>
\* code units in another charset, or Bad
RECURSIVE Conv(_, _, _)
Conv(from, to, s) == IF s = <<>> THEN <<>> ELSE
    LET d == Dec1(from, s) IN IF d[1] < 0 THEN Bad ELSE
    LET e == Enc1(to, d[1]) IN IF e = Bad THEN Bad ELSE
    LET r == Conv(from, to, SubSeq(s, d[2] + 1, Len(s))) IN IF r = Bad THEN Bad ELSE e \o r
First0(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN IF z = {} THEN Len(b) + 1 ELSE CHOOSE i \in z : \A j \in z : i <= j
Cut(b, lim) == LET t == IF lim < 0 THEN b ELSE Take(b, lim) IN Take(t, First0(t) - 1)
Times(s, n) == IF s = <<>> THEN <<>> ELSE [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]] \o <<>>
\* UTF-7: characters written directly, and sections of base64 with UTF-16 inside
B64(b) == IF b >= 65 /\ b <= 90 THEN b - 65 ELSE IF b >= 97 /\ b <= 122 THEN b - 71 ELSE IF b >= 48 /\ b <= 57 THEN b + 4 ELSE IF b = 43 THEN 62 ELSE IF b = 47 THEN 63 ELSE -1
Direct(b) == b \in {9, 10, 13} \/ (b >= 32 /\ b <= 125 /\ b \notin {43, 92})
\* m: 0 direct, 1 after +, 2 within a section; v: n bits not yet used; h: first half of a pair
Dec7(s) ==
    LET Err(x) == [x EXCEPT !.m = 9]
        End(x) == IF x.m = 2 /\ (x.n >= 6 \/ x.v # 0 \/ x.h # 0) THEN Err(x) ELSE IF x.m = 1 THEN Err(x) ELSE [x EXCEPT !.m = 0, !.n = 0]
        Put(x, c) == IF x.m = 9 THEN x ELSE [x EXCEPT !.o = @ \o <<c>>]
        Unit(x, u) == IF x.h # 0 THEN IF u >= 56320 /\ u < 57344 THEN [Put(x, 65536 + (x.h - 55296) * 1024 + (u - 56320)) EXCEPT !.h = 0] ELSE Err(x)
                      ELSE IF u >= 55296 /\ u < 56320 THEN [x EXCEPT !.h = u] ELSE IF Scalar(u) THEN Put(x, u) ELSE Err(x)
        Bits(x, k) == LET v == x.v * 64 + k  n == x.n + 6  q == 2 ^ (n - 16) IN
                      IF n < 16 THEN [x EXCEPT !.m = 2, !.v = v, !.n = n] ELSE Unit([x EXCEPT !.m = 2, !.v = v % q, !.n = n - 16], v \div q)
        Step(x, b) == CASE x.m = 9 -> x
            [] x.m = 0 -> IF b = 43 THEN [x EXCEPT !.m = 1, !.v = 0, !.n = 0] ELSE IF Direct(b) THEN Put(x, b) ELSE Err(x)
            [] x.m = 1 /\ b = 45 -> Put([x EXCEPT !.m = 0], 43)
            [] B64(b) >= 0 -> Bits(x, B64(b))
            [] OTHER -> LET y == End(x) IN IF b = 45 THEN y ELSE IF Direct(b) THEN Put(y, b) ELSE Err(x)
        z == End(FoldLeft(Step, [m |-> 0, v |-> 0, n |-> 0, h |-> 0, o |-> <<>>], s)) IN
    IF z.m = 9 THEN Bad ELSE z.o
\* a text: limit, block repeated n times, block length, units; more than once only without zeros and limits
Text(from, to, a, i) == LET lim == a[i]  n == a[i + 1]  k == a[i + 2]  u == SubSeq(a, i + 3, Len(a))
                            blk == SubSeq(u, 1, k)  tail == SubSeq(u, k + 1, Len(u)) IN
    IF from = 1 THEN LET x == Dec7(IF n = 1 THEN Cut(u, lim) ELSE Cut(Times(blk, n) \o tail, lim)) IN IF x = Bad \/ to = 1 THEN x ELSE Conv(4, to, x)
    ELSE IF n = 1 THEN Conv(from, to, Cut(u, lim))
    ELSE LET x == Conv(from, to, blk)  y == Conv(from, to, Cut(tail, -1)) IN IF x = Bad \/ y = Bad THEN Bad ELSE Times(x, n) \o y
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
\* names known, in lower case
S(str) == str
Names == [n \in {"unicode-1-1-utf-7", "utf-7", "csunicode11utf7", "utf-8", "utf8", "utf-16", "utf-16le", "utf-32", "utf-32le", "cp1250", "ms-ee", "windows-1250", "cp1251", "ms-cyrl", "windows-1251", "cp1252", "ms-ansi", "windows-1252"} |->
    CASE n \in {"unicode-1-1-utf-7", "utf-7", "csunicode11utf7"} -> 1 [] n \in {"utf-8", "utf8"} -> 2 [] n \in {"utf-16", "utf-16le"} -> 3 [] n \in {"utf-32", "utf-32le"} -> 4
      [] n \in {"cp1250", "ms-ee", "windows-1250"} -> 5 [] n \in {"cp1251", "ms-cyrl", "windows-1251"} -> 6 [] OTHER -> 7]
Alpha == [c \in {45} \cup 48..57 \cup 97..122 |-> CASE c = 45 -> "-" [] c < 58 -> ToString(c - 48) [] OTHER ->
    <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>[c - 96]]
NameOf(a) == LET t == [i \in 1..Len(a) |-> Lower(a[i])] IN
    IF \E i \in 1..Len(t) : t[i] \notin DOMAIN Alpha THEN "?" ELSE FoldLeft(LAMBDA x, c : x \o Alpha[c], "", t \o <<>>)
\* what reads back from UTF-7 as the text: a[i] units, the units, the text
Reads7(from, a, i) == LET k == a[i]  o == Text(from, 4, a, i + k + 1) IN o # Bad /\ Dec7(SubSeq(a, i + 1, i + k)) = o
Start(a) == {[f |-> a[1], t |-> a[2], d |-> <<>>, dirty |-> FALSE]}
Eval(st, op, a) ==
    LET Done(d, o) == IF o = Bad THEN {[r |-> <<EXC, 1>>, s |-> [st EXCEPT !.dirty = TRUE, !.d = d]]}
                      ELSE {[r |-> <<0>> \o d \o o, s |-> [st EXCEPT !.d = d \o o]]}
        \* in the middle of a character the outcome is open; the driver keeps the destination
        Open(d) == {[r |-> <<-1, 1>>, s |-> [st EXCEPT !.d = d]]}
    IN
    CASE op = "set" -> {[r |-> <<>>, s |-> [st EXCEPT !.d = a]]}
      [] op = "cat" -> IF st.dirty THEN Open(st.d) ELSE Done(st.d, Text(st.f, st.t, a, 2))
      [] op = "cpy" -> IF st.dirty THEN Open(<<>>) ELSE Done(<<>>, Text(st.f, st.t, a, 2))
      \* to UTF-7, unless it failed: the appended units, then the text
      [] op = "to7" -> IF Reads7(st.f, a, 1) THEN {[r |-> <<0, 1>>, s |-> st]} ELSE {}
      [] op = "free7" -> IF Reads7(4, a, 1) THEN {[r |-> <<0, 1>>, s |-> st]} ELSE {}
      [] op = "clear" -> {[r |-> <<>>, s |-> [st EXCEPT !.dirty = FALSE]]}
      [] op = "which" -> {[r |-> <<st.f, st.t>>, s |-> st]}
      \* the free functions: how, append?, to the wide string?, charset, text
      [] op = "free" -> LET from == IF a[3] = 1 THEN a[4] ELSE 4  to == IF a[3] = 1 THEN 4 ELSE a[4]  o == Text(from, to, a, 5)  d == IF a[2] = 1 THEN <<65, 66>> ELSE <<>> IN
                        {[r |-> IF o = Bad THEN <<EXC, 1>> ELSE <<0>> \o d \o o, s |-> st]}
      [] op = "name" -> LET n == NameOf(a) IN {[r |-> <<IF n \in DOMAIN Names THEN Names[n] ELSE 0>>, s |-> st]}
      [] OTHER -> {}
=============================================================================
