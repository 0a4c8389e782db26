------------------------------ MODULE Strings ------------------------------
(* Strings of code units (1 byte: 0, UTF-16: 1, UTF-32 and wide: 2), limited *)
(* by a terminating zero or the given limit, whichever comes first, and what *)
(* the string functions make of them. The state is a buffer, with a string   *)
(* in it. An operation may write up to its limit only; units behind the      *)
(* terminator and below the limit are meaningless, and read as Rest.         *)
EXTENDS Bytes, SequencesExt
Rest == 126
\* --- code units
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Lower(c) == c >= 97 /\ c <= 122
Upper(c) == c >= 65 /\ c <= 90
\* letters other than ASCII a wide-character Slovene locale (loc = 2) knows
Pairs == {<<268, 269>>, <<352, 353>>, <<381, 382>>}
Lo(c, loc) == IF Upper(c) THEN c + 32 ELSE IF loc = 2 /\ \E p \in Pairs : p[1] = c THEN c + 1 ELSE c
Up(c, loc) == IF Lower(c) THEN c - 32 ELSE IF loc = 2 /\ \E p \in Pairs : p[2] = c THEN c - 1 ELSE c
IsSp(c, loc) == Space(c) \/ (loc = 2 /\ c = 8195)
Combining(c) == (c >= 768 /\ c < 880) \/ (c >= 7616 /\ c < 7680) \/ (c >= 8400 /\ c < 8448) \/ (c >= 65056 /\ c < 65072)
High(c) == c >= 55296 /\ c < 56320
Low(c) == c >= 56320 /\ c < 57344
LoS(s, loc) == [i \in 1..Len(s) |-> Lo(s[i], loc)] \o <<>>
UpS(s, loc) == [i \in 1..Len(s) |-> Up(s[i], loc)] \o <<>>
\* --- strings
First0(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN IF z = {} THEN Len(b) + 1 ELSE CHOOSE i \in z : \A j \in z : i <= j
Cut(b, lim) == LET t == IF lim < 0 THEN b ELSE Take(b, lim) IN Take(t, First0(t) - 1)
\* buffer b with string s in its first lim units (without a terminator when it does not fit)
Put(b, lim, s) == IF Len(s) < lim THEN s \o <<0>> \o Fill(Rest, lim - Len(s) - 1) \o Drop(b, lim) ELSE Take(s, lim) \o Drop(b, lim)
Eff(b, lim) == IF lim < 0 THEN First0(b) ELSE lim
LTrim(s, loc) == LET n == {i \in 1..Len(s) : ~IsSp(s[i], loc)} IN IF n = {} THEN <<>> ELSE Drop(s, (CHOOSE i \in n : \A j \in n : i <= j) - 1)
RTrim(s, loc) == LET n == {i \in 1..Len(s) : ~IsSp(s[i], loc)} IN IF n = {} THEN <<>> ELSE Take(s, CHOOSE i \in n : \A j \in n : i >= j)
Trim(s, loc) == RTrim(LTrim(s, loc), loc)
CrLf(s) == LET keep == {i \in 1..Len(s) : ~(s[i] = 13 /\ i < Len(s) /\ s[i + 1] = 10)} IN
    FoldLeft(LAMBDA x, i : IF i \in keep THEN Append(x, s[i]) ELSE x, <<>>, [i \in 1..Len(s) |-> i] \o <<>>)
\* UTF-16 as code points; unpaired surrogates stand for themselves
Wide(s) == FoldLeft(LAMBDA x, i : IF Low(s[i]) /\ i > 1 /\ High(s[i - 1]) THEN x
                                  ELSE IF High(s[i]) /\ i < Len(s) /\ Low(s[i + 1]) THEN Append(x, 65536 + (s[i] - 55296) * 1024 + (s[i + 1] - 56320))
                                  ELSE Append(x, s[i]), <<>>, [i \in 1..Len(s) |-> i] \o <<>>)
\* --- comparing: the sign of the first difference; narrow units of 128 and above may be negative
SignOf(x, y, t) == IF t = 0 /\ ((x > 127) # (y > 127)) THEN {-1, 1} ELSE IF x < y THEN {-1} ELSE {1}
CmpS(x, y, t) == LET n == Min2(Len(x), Len(y))  d == {i \in 1..n : x[i] # y[i]} IN
    IF d # {} THEN LET i == CHOOSE i \in d : \A j \in d : i <= j IN SignOf(x[i], y[i], t)
    ELSE IF Len(x) > n THEN SignOf(x[n + 1], 0, t) ELSE IF Len(y) > n THEN SignOf(0, y[n + 1], t) ELSE {0}
\* --- searching: offset from 0, or -1
FindC(s, c, last) == LET p == {i \in 1..Len(s) : s[i] = c} IN
    IF p = {} THEN -1 ELSE IF last THEN (CHOOSE i \in p : \A j \in p : i >= j) - 1 ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1
FindS(s, x) == LET p == {i \in 0..(Len(s) - Len(x)) : \A j \in 1..Len(x) : s[i + j] = x[j]} IN
    IF p = {} THEN -1 ELSE CHOOSE i \in p : \A j \in p : i <= j
\* --- glyphs
Glyph(s, t) == IF s = <<>> THEN 0 ELSE
    LET n == IF t = 1 /\ Len(s) > 1 /\ High(s[1]) /\ Low(s[2]) THEN 2 ELSE 1
        b == {i \in (n + 1)..Len(s) : ~Combining(s[i])}
    IN IF b = {} THEN Len(s) ELSE (CHOOSE i \in b : \A j \in b : i <= j) - 1
RGlyph(s, t) == LET b == {i \in 1..Len(s) : ~Combining(s[i])} IN
    IF b = {} THEN Len(s) ELSE
    LET i == CHOOSE i \in b : \A j \in b : i >= j IN IF t = 1 /\ Low(s[i]) /\ i > 1 /\ High(s[i - 1]) THEN Len(s) - i + 2 ELSE Len(s) - i + 1
LBreak(s) == IF Len(s) > 1 /\ {s[1], s[2]} = {10, 13} THEN 2 ELSE IF s # <<>> /\ s[1] \in {10, 13} THEN 1 ELSE 0
\* --- numbers: magnitudes as little-endian bytes, of any length (leading zeros dropped)
RECURSIVE Strip(_)
Strip(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Strip(SubSeq(m, 1, Len(m) - 1))
MulAdd(m, r, d) == LET z == FoldLeft(LAMBDA x, y : [o |-> Append(x.o, (y * r + x.c) % 256), c |-> (y * r + x.c) \div 256], [o |-> <<>>, c |-> d], m) IN
    Strip(Append(z.o, z.c))
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE IF Lower(c) THEN c - 87 ELSE 99
Mag(ds, r) == FoldLeft(LAMBDA m, c : IF Len(m) > 9 THEN m ELSE MulAdd(m, r, Digit(c)), <<>>, ds)
Pad(m, w) == m \o Zeros(w - Len(m))
Ones(w) == Fill(255, w)
\* two's complement of a magnitude that fits w bytes
Neg(m, w) == IF m = <<>> THEN Zeros(w) ELSE
    LET z == FoldLeft(LAMBDA x, y : LET v == (255 - y) + x.c IN [o |-> Append(x.o, v % 256), c |-> v \div 256], [o |-> <<>>, c |-> 1], Pad(m, w)) IN z.o
MaxS(w) == Append(Fill(255, w - 1), 127)
MinS(w) == Append(Zeros(w - 1), 128)
FitsU(m, w) == Len(m) <= w
FitsS(m, w) == Len(m) < w \/ (Len(m) = w /\ m[w] < 128)
\* [end, vals]: units processed and possible values
RECURSIVE Digits(_, _, _)
Digits(s, i, r) == IF i <= Len(s) /\ Digit(s[i]) < r THEN Digits(s, i + 1, r) ELSE i - 1   \* index of the last digit
Skip(s) == LET n == {i \in 1..Len(s) : ~Space(s[i])} IN IF n = {} THEN Len(s) ELSE (CHOOSE i \in n : \A j \in n : i <= j) - 1
Number(s, w, sgn, radix) ==
    LET i0 == Skip(s)                                                  \* behind the spaces
        neg == i0 < Len(s) /\ s[i0 + 1] = 45
        i1 == IF i0 < Len(s) /\ s[i0 + 1] \in {43, 45} THEN i0 + 1 ELSE i0
        hex == i1 + 1 < Len(s) /\ s[i1 + 1] = 48 /\ s[i1 + 2] \in {88, 120}
        r == IF radix # 0 THEN radix ELSE IF hex THEN 16 ELSE IF i1 < Len(s) /\ s[i1 + 1] = 48 THEN 8 ELSE 10
        i2 == IF r = 16 /\ hex THEN i1 + 2 ELSE i1
        e == Digits(s, i2 + 1, r)
        m == Mag(SubSeq(s, i2 + 1, e), r)
        v == IF sgn THEN IF neg THEN IF FitsS(m, w) THEN {Neg(m, w)} ELSE {MinS(w)} ELSE IF FitsS(m, w) THEN {Pad(m, w)} ELSE {MaxS(w)}
             ELSE IF neg THEN IF m = <<>> THEN {Zeros(w)} ELSE IF FitsU(m, w) THEN {Neg(m, w), Zeros(w)} ELSE {Zeros(w)}   \* a negative number is no unsigned number
             ELSE IF FitsU(m, w) THEN {Pad(m, w)} ELSE {Ones(w)}
    IN IF e > i2 THEN {<<e>> \o x : x \in v} ELSE {<<n>> \o Zeros(w) : n \in 0..e}      \* without digits, how much was processed is open
\* decimal fractions in quarters: value times 4
Quarters(s) == LET neg == s # <<>> /\ s[1] = 45
                   p == FindC(s, 46, FALSE)
                   ip == Cut(SubSeq(s, 1 + (IF neg THEN 1 ELSE 0), IF p < 0 THEN Len(s) ELSE p), -1)
                   fp == IF p < 0 THEN <<>> ELSE Drop(s, p + 1)
                   i == FoldLeft(LAMBDA v, c : v * 10 + c - 48, 0, ip)
                   f == IF fp = <<50, 53>> THEN 1 ELSE IF fp = <<53>> THEN 2 ELSE IF fp = <<55, 53>> THEN 3 ELSE 0
               IN IF neg THEN -(4 * i + f) ELSE 4 * i + f
\* --- formatted text, in runs: <<unit, count, unit, count ...>>
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Runs(_)
Runs(q) == IF Len(q) < 2 THEN <<>> ELSE IF q[2] = 0 THEN Runs(SubSeq(q, 3, Len(q)))
           ELSE IF Len(q) >= 4 /\ (q[4] = 0 \/ q[1] = q[3]) THEN Runs(<<q[1], q[2] + q[4]>> \o SubSeq(q, 5, Len(q)))
           ELSE <<q[1], q[2]>> \o Runs(SubSeq(q, 3, Len(q)))
AsRuns(s) == FoldLeft(LAMBDA x, c : x \o <<c, 1>>, <<>>, s)
RECURSIVE RunLen(_)
RunLen(q) == IF Len(q) < 2 THEN 0 ELSE q[2] + RunLen(SubSeq(q, 3, Len(q)))
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
\* --- a string argument: type, limit, units
Src(a, i) == [t |-> a[i], lim |-> a[i + 1], u |-> SubSeq(a, i + 2, Len(a))]
Str(x) == Cut(x.u, x.lim)
As(x, t) == IF t = 2 /\ x.t = 1 THEN Wide(Str(x)) ELSE Str(x)
Start(a) == {[t |-> a[1], b |-> Drop(a, 1)]}
St(st, b) == [st EXCEPT !.b = b]
Eval(st, op, a) ==
    LET b == st.b  t == st.t
        Set(lim, s) == {[r |-> <<Len(Take(s, lim))>> \o Put(b, lim, s), s |-> St(st, Put(b, lim, s))]}
        Ask(rs) == {[r |-> <<r>>, s |-> st] : r \in rs}
        Say(rs) == {[r |-> r, s |-> st] : r \in rs}
    IN
    CASE op = "cpy" -> LET s == As(Src(a, 1), t) IN Set(Len(s) + 1, s)
      [] op = "ncpy" -> Set(a[1], As(Src(a, 2), t))                                   \* limit, source
      [] op = "ncpy1" -> Set(a[2], Str(Src(a, 1)))                                     \* one limit for both
      [] op = "cat" -> LET s == Cut(b, -1) \o Str(Src(a, 1)) IN Set(Len(s) + 1, s)
      [] op = "ncat" -> Set(a[1], Cut(b, a[1]) \o Str(Src(a, 2)))
      [] op = "ncat1" -> LET s == Cut(b, -1) \o Str(Src(a, 1)) IN Set(Len(s) + 1, s)
      [] op = "case" -> {[r |-> Put(b, Eff(b, a[2]), s), s |-> St(st, Put(b, Eff(b, a[2]), s))] :                         \* up?, limit, locale
                            s \in {IF a[1] = 1 THEN UpS(Cut(b, a[2]), a[3]) ELSE LoS(Cut(b, a[2]), a[3])}}
      [] op = "trim" -> Set(Eff(b, a[2]), LET s == Cut(b, a[2]) IN IF a[1] = 0 THEN LTrim(s, a[3]) ELSE IF a[1] = 1 THEN RTrim(s, a[3]) ELSE Trim(s, a[3]))
      [] op = "dup" -> Say({Cut(b, a[1])})
      [] op = "len" -> Ask({Len(Cut(b, a[1]))})
      [] op = "chr" -> LET s == Cut(b, a[2])  i == a[1] \div 2 = 1 IN                  \* last? + 2 insensitive?, limit, locale, unit
                       Ask({IF i THEN FindC(LoS(s, a[3]), Lo(a[4], a[3]), a[1] % 2 = 1) ELSE FindC(s, a[4], a[1] % 2 = 1)})
      [] op = "is" -> LET s == Cut(b, a[2]) IN                                         \* blank / 7-bit, limit, locale
                      Ask({IF a[1] = 0 THEN IF \A i \in 1..Len(s) : IsSp(s[i], a[3]) THEN 1 ELSE 0 ELSE IF \A i \in 1..Len(s) : s[i] < 128 THEN 1 ELSE 0})
      \* 0 plain, 1 from the end, 2 insensitive, 3 collate, 4.. the same with one limit for both; limit; locale; other
      [] op = "cmp" -> LET x == Cut(b, a[2])  y == Src(a, 4)
                           z == IF a[1] > 3 THEN Cut(y.u, a[2]) ELSE IF a[1] = 0 /\ a[2] # -1 THEN As(y, t) ELSE Str(y)  k == a[1] % 4 IN
                       Ask(IF k = 0 \/ k = 3 THEN CmpS(x, z, t) ELSE IF k = 1 THEN CmpS(Reverse(x), Reverse(z), t) ELSE CmpS(LoS(x, a[3]), LoS(z, a[3]), t))
      [] op = "str" -> LET x == Cut(b, a[2])  y == Str(Src(a, 4)) IN Ask({IF a[1] = 0 THEN FindS(x, y) ELSE FindS(LoS(x, a[3]), LoS(y, a[3]))})
      [] op = "glyph" -> Ask({Glyph(IF a = <<>> THEN b ELSE SubSeq(b, 1, a[1]), t)})
      [] op = "rglyph" -> Ask({RGlyph(b, t)})
      \* UTF-16
      [] op = "pair" -> LET h == 55296 + (a[1] - 65536) \div 1024  w == 56320 + ((a[1] - 65536) % 1024) IN Say({<<h, w, 7, a[1], 1, 1, 1>>})
      [] op = "unit" -> Say({<<IF High(a[1]) THEN 1 ELSE 0, IF Low(a[1]) THEN 1 ELSE 0>>})
      [] op = "lbreak" -> Ask({LBreak(b)})
      \* whole strings, zeros included
      [] op = "text" -> LET s == Drop(a, 2) IN Say({CASE a[1] = 0 -> LTrim(s, a[2]) [] a[1] = 1 -> RTrim(s, a[2]) [] a[1] = 2 -> Trim(s, a[2])
                                                      [] a[1] = 3 -> LoS(s, a[2]) [] a[1] = 4 -> UpS(s, a[2]) [] a[1] = 5 -> CrLf(s)
                                                      [] a[1] = 6 \/ a[1] = 7 -> CrLf(Cut(s, -1))})
      [] op = "int" -> Say(Number(Str(Src(a, 4)), a[1], a[2] = 1, a[3]))              \* bytes, signed?, radix, text
      [] op = "real" -> LET s == Str(Src(a, 1)) IN Say({<<Len(s), Quarters(s)>>})
      \* how, runs of the string to append to, argument (runs), number; text is "<" argument number ">"
      [] op = "fmt" -> LET q == Runs(<<60, 1, a[3], a[4]>> \o AsRuns(Dec(a[2])) \o <<62, 1>>) IN
                       Say({<<RunLen(q)>> \o Runs((IF a[1] = 0 THEN <<112, a[5]>> ELSE <<>>) \o q)})
      \* time: how, length of the string to append to, unit and count before, what, Y m d H M S
      [] op = "time" -> Say({Runs((IF a[1] = 0 THEN <<112, a[2]>> ELSE <<>>) \o <<a[3], a[4]>> \o
                        AsRuns(CASE a[5] = 0 -> <<>> [] a[5] = 1 -> Dec(a[6]) \o <<45>> \o Two(a[7]) \o <<45>> \o Two(a[8]) [] OTHER -> Two(a[9]) \o <<58>> \o Two(a[10]) \o <<58>> \o Two(a[11])))})
      [] OTHER -> {}
=============================================================================
