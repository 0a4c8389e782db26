-------------------------------- MODULE Ids --------------------------------
(* T11. Identifiers: UUIDs and their text, language identifiers and their    *)
(* tags, platform names, Minisign signatures.                                *)
EXTENDS Codec, LangIds, SequencesExt
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
\* UUIDs: three numbers in the machine's byte order, then eight bytes
Order == <<4, 3, 2, 1, -1, 6, 5, -1, 8, 7, -1, 9, 10, -1, 11, 12, 13, 14, 15, 16>>
UText(b) == <<123>> \o FlattenSeq([i \in 1..20 |-> IF Order[i] < 0 THEN <<45>> ELSE <<Hex(b[Order[i]] \div 16), Hex(b[Order[i]] % 16)>>]) \o <<125>>
Widths == <<8, 4, 4, 4, 12>>
RECURSIVE SkipSp(_, _)
SkipSp(t, p) == IF p <= Len(t) /\ Space(t[p]) THEN SkipSp(t, p + 1) ELSE p
RECURSIVE HexEnd(_, _)
HexEnd(t, p) == IF p <= Len(t) /\ HexVal(t[p]) >= 0 THEN HexEnd(t, p + 1) ELSE p
At(t, p, c) == p <= Len(t) /\ t[p] = c
\* the digits of a group, w of them, whatever the number of leading zeros; k: 0 as it should be, 1 other than w digits, 2 wrong
Group(t, p, w) ==
    LET e == HexEnd(t, p)  h == SubSeq(t, p, e - 1)  z == {i \in 0..Len(h) : \A j \in 1..i : h[j] = 48}
        lead == CHOOSE i \in z : \A j \in z : j <= i  n == Len(h) - lead
    IN [e |-> e, k |-> IF n > w THEN 2 ELSE IF Len(h) = w THEN 0 ELSE 1,
        d |-> IF n > w THEN <<>> ELSE [i \in 1..(w - n) |-> 48] \o SubSeq(h, lead + 1, Len(h)),
        odd |-> p <= Len(t) /\ (t[p] \in {43, 45} \/ (At(t, p, 48) /\ p < Len(t) /\ t[p + 1] \in {88, 120}))]
RECURSIVE Groups(_, _, _, _, _)           \* -> k (0 the form, 1 close to it, 2 something else, 3 signs and prefixes), digits
Groups(t, p0, g, k, d) ==
    LET p == SkipSp(t, p0)  x == Group(t, p, Widths[g])  q == SkipSp(t, x.e) IN
    IF x.odd THEN [k |-> 3, d |-> <<>>] ELSE IF x.k = 2 THEN [k |-> 2, d |-> <<>>]
    ELSE IF g < 5 THEN IF At(t, q, 45) THEN Groups(t, q + 1, g + 1, Max2(k, x.k), d \o x.d) ELSE [k |-> 2, d |-> <<>>]
    ELSE IF At(t, q, 125) /\ SkipSp(t, q + 1) > Len(t) THEN [k |-> Max2(k, x.k), d |-> d \o x.d] ELSE [k |-> 2, d |-> <<>>]
UForm(t) == LET p == SkipSp(t, 1) IN IF At(t, p, 123) THEN Groups(t, p + 1, 1, 0, <<>>) ELSE [k |-> 2, d |-> <<>>]
UBytes(d) == LET v == [i \in 1..16 |-> 16 * HexVal(d[2 * i - 1]) + HexVal(d[2 * i])]  o == SelectSeq(Order, LAMBDA i : i > 0) IN [j \in 1..16 |-> v[CHOOSE i \in 1..16 : o[i] = j]]
Parses(t, obs) == LET x == UForm(Cut(t)) IN IF x.k = 3 THEN TRUE ELSE IF x.k = 2 THEN obs = <<0>> ELSE obs = <<1>> \o UBytes(x.d) \/ (x.k = 1 /\ obs = <<0>>)
\* language tags: letters of either case, any punctuation for any other
Norm(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE IF (c >= 33 /\ c <= 47) \/ (c >= 58 /\ c <= 64) \/ (c >= 91 /\ c <= 96) \/ (c >= 123 /\ c <= 126) THEN 45 ELSE c
NormTag(t) == [i \in 1..Len(t) |-> Norm(t[i])] \o <<>>
Known == {LangIds[i][1] : i \in DOMAIN LangIds}
Tag == [x \in Known |-> LangIds[CHOOSE i \in DOMAIN LangIds : LangIds[i][1] = x][2]]
ByTag == [t \in {NormTag(Tag[x]) : x \in Known} |-> {x \in Known : NormTag(Tag[x]) = t}]
Unknown == 127
Lang(t) == LET n == NormTag(t) IN IF n \in DOMAIN ByTag THEN ByTag[n] ELSE {Unknown}
\* platform names
Lower(t) == [i \in 1..Len(t) |-> IF t[i] >= 65 /\ t[i] <= 90 THEN t[i] + 32 ELSE t[i]] \o <<>>
Platform(t) == LET n == Lower(t) IN
    CASE n = <<97, 97, 114, 99, 104, 54, 52>> -> 43620 [] n = <<97, 114, 109>> -> 452 [] n = <<105, 51, 56, 54>> -> 332
      [] n = <<120, 56, 54, 95, 54, 52>> -> 34404 [] OTHER -> 0
\* Minisign signatures: the first line that is neither empty nor an untrusted comment
Comment == <<117, 110, 116, 114, 117, 115, 116, 101, 100, 32, 99, 111, 109, 109, 101, 110, 116, 58>>
Line(t) == LET n == {i \in 1..Len(t) : t[i] = 10}  e == IF n = {} THEN Len(t) + 1 ELSE CHOOSE i \in n : \A j \in n : i <= j
               l == SubSeq(t, 1, e - 1) IN
           [l |-> IF n # {} /\ l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l, rest |-> SubSeq(t, e + 1, Len(t))]
RECURSIVE SigLine(_)
SigLine(t) == IF t = <<>> THEN [l |-> <<>>, rest |-> <<>>] ELSE LET x == Line(t) IN IF x.l = <<>> \/ (Len(x.l) >= 18 /\ SubSeq(x.l, 1, 18) = Comment) THEN SigLine(x.rest) ELSE x
\* algorithm, key, signature, and how much of the text is left to read
Signature(t) == LET s == SigLine(t)  b == Dec(<<>>, Cut(s.l), <<>>).out IN IF Len(b) < 74 \/ b[1] # 69 THEN <<EXC>> ELSE SubSeq(b, 2, 74) \o <<Len(s.rest)>>
\* its pieces: the comment's mark and the end of a line -> where they end, or nothing
Piece(k, t, p) == LET r == SubSeq(t, p + 1, Len(t)) IN
    IF k = 0 THEN IF Len(r) >= 18 /\ SubSeq(r, 1, 18) = Comment THEN <<p, p + 18>> ELSE <<>>
    ELSE IF Len(r) >= 2 /\ r[1] = 13 /\ r[2] = 10 THEN <<p, p + 2>> ELSE IF Len(r) >= 1 /\ r[1] = 10 THEN <<p, p + 1>> ELSE <<>>

StartI(a) == {<<>>}
EvalI(st, op, a) ==
    LET R(r) == {[r |-> r, s |-> st]} IN
    CASE op = "utext" -> R(UText(Tail(a)))                                 \* kind of character, bytes
      [] op = "uparse" -> IF Parses(SubSeq(a, 3, 2 + a[2]), SubSeq(a, 3 + a[2], Len(a))) THEN R(<<>>) ELSE {}   \* kind, length, text, what came out
      [] op = "tag" -> R(IF a[1] \in Known THEN Tag[a[1]] ELSE IF a[2] = 0 THEN <<-1>> ELSE <<63>>)
      [] op = "tags" -> R(SetToSortSeq(Known \cap a[1]..a[2], LAMBDA x, y : x < y))
      [] op = "lang" -> {[r |-> <<x>>, s |-> st] : x \in Lang(a)}
      [] op = "parts" -> R(<<a[1] % 1024, a[1] - (a[1] % 1024)>>)
      [] op = "platform" -> R(<<Platform(a)>>)
      [] op = "system" -> R(<<1, 1, 1, 1>>)
      [] op = "sig" -> R(Signature(Tail(a)))                               \* bytes before it, text
      [] op = "piece" -> R(Piece(a[1], SubSeq(a, 3, Len(a)), a[2]))         \* which, where, text
      [] OTHER -> {}
=============================================================================
