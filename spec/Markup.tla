------------------------------- MODULE Markup -------------------------------
(* T09. Recognizers of HTTP messages, JSON strings, CSS, MIME types and HTML  *)
(* tags. w is what may be read; positions are from 1, parts <<from, to>>      *)
(* without to, None if there is no such part. 0 or <<>>: not recognized.      *)
EXTENDS Bytes
None == <<0, 0>>
C(w, i) == IF i >= 1 /\ i <= Len(w) THEN w[i] ELSE 0
Sp(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
RECURSIVE SkipSp(_, _)
SkipSp(w, i) == IF Sp(C(w, i)) THEN SkipSp(w, i + 1) ELSE i
RECURSIVE Until(_, _, _)
Until(w, i, S) == IF i > Len(w) \/ w[i] \in S THEN i ELSE Until(w, i + 1, S)
RECURSIVE While(_, _, _)
While(w, i, S) == IF C(w, i) \in S THEN While(w, i + 1, S) ELSE i
Has(w, i, t) == i + Len(t) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(t) - 1) = t
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
HasI(w, i, t) == i + Len(t) - 1 <= Len(w) /\ \A k \in 1..Len(t) : Low(w[i + k - 1]) = t[k]
RECURSIVE Find(_, _, _)
Find(w, i, t) == IF i > Len(w) THEN 0 ELSE IF Has(w, i, t) THEN i ELSE Find(w, i + 1, t)
Blank == {32} \cup (9..13)
Ctl == (1..31) \cup {127}
------------------------------------------------------------------------------
(* HTTP (RFC 2616), bytes *)
LineBreak(w, i) == IF C(w, i) = 13 /\ C(w, i + 1) = 10 THEN i + 2 ELSE IF C(w, i) = 10 THEN i + 1 ELSE 0
\* a line break is a space only if the next line starts with one
Space(w, i) == LET b == LineBreak(w, i) j == IF b # 0 THEN b ELSE i IN IF Sp(C(w, j)) THEN SkipSp(w, j) ELSE 0
TextChar(w, i) == LET s == Space(w, i) IN IF s # 0 THEN s ELSE IF C(w, i) >= 32 THEN i + 1 ELSE 0
RECURSIVE Spaces(_, _)
Spaces(w, i) == LET s == Space(w, i) IN IF s = 0 THEN i ELSE Spaces(w, s)
Separators == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125}
Some(i, j) == IF j > i THEN j ELSE 0
Token(w, i) == Some(i, Until(w, i, Separators \cup Ctl \cup Blank))
\* where the quote closing the string is
RECURSIVE Closing(_, _)
Closing(w, i) == IF i > Len(w) THEN 0 ELSE IF w[i] = 34 THEN i
    ELSE IF w[i] = 92 THEN (IF i < Len(w) THEN Closing(w, i + 2) ELSE 0)
    ELSE IF TextChar(w, i) # 0 THEN Closing(w, i + 1) ELSE 0
\* <<end, part..>>
Quoted(w, i) == IF C(w, i) # 34 THEN <<>> ELSE LET k == Closing(w, i + 1) IN IF k = 0 THEN <<>> ELSE <<k + 1, <<i + 1, k>>>>
\* <<end, string, its content, token>>
Value(w, i) == LET q == Quoted(w, i) t == Token(w, i) IN
    IF q # <<>> THEN <<q[1], <<i, q[1]>>, q[2], None>> ELSE IF t # 0 THEN <<t, None, None, <<i, t>>>> ELSE <<>>
\* = value, spaces allowed around =
Assigned(w, i) == LET j == Spaces(w, i) IN IF C(w, j) # 61 THEN <<>> ELSE Value(w, Spaces(w, j + 1))
Parameter(w, i) == LET t == Token(w, i) v == IF t = 0 THEN <<>> ELSE Assigned(w, t) IN IF v = <<>> THEN <<>> ELSE <<v[1], <<i, t>>>> \o Tail(v)
CookieParameter(w, i) == IF C(w, i) # 36 THEN <<>> ELSE Parameter(w, i + 1)
AnyType(w, i) == IF Has(w, i, <<42, 47, 42>>) THEN i + 3 ELSE IF C(w, i) = 42 THEN i + 1 ELSE 0
MediaRange(w, i) == LET t == Token(w, i) j == IF t = 0 THEN 0 ELSE Spaces(w, t) k == IF t = 0 \/ C(w, j) # 47 THEN 0 ELSE Spaces(w, j + 1) s == IF k = 0 THEN 0 ELSE Token(w, k) IN
    IF s = 0 THEN <<>> ELSE <<s, <<i, t>>, <<k, s>>>>
\* parameters following ;
RECURSIVE Params(_, _, _, _, _)
Params(w, i, cookie, out, e) == LET s == Space(w, i) IN
    IF s # 0 THEN Params(w, s, cookie, out, e)
    ELSE IF C(w, i) # 59 THEN <<e, out>>
    ELSE LET j == Spaces(w, i + 1) p == IF cookie THEN CookieParameter(w, j) ELSE Parameter(w, j) IN
         IF p = <<>> THEN <<e, out>> ELSE Params(w, p[1], cookie, Append(out, <<<<j, p[1]>>>> \o Tail(p)), p[1])
MediaType(w, i) == LET r == MediaRange(w, i) IN IF r = <<>> THEN <<>> ELSE LET p == Params(w, r[1], FALSE, <<>>, r[1]) IN <<p[1], r[2], r[3], p[2]>>
Cookie(w, i) == LET c == Parameter(w, i) IN IF c = <<>> THEN <<>> ELSE LET p == Params(w, c[1], TRUE, <<>>, c[1]) IN <<p[1], Tail(c), p[2]>>
Server(w, i) == Some(i, Until(w, i, Ctl \cup Blank \cup {58, 47}))
RECURSIVE Dec(_, _, _)
Dec(w, i, j) == IF i = j THEN 0 ELSE Min2(1000000, Dec(w, i, j - 1) * 10 + w[j - 1] - 48)
\* <<end, number>>
Port(w, i) == LET j == While(w, i, 48..57) IN IF j = i \/ Dec(w, i, j) > 65535 THEN <<>> ELSE <<j, Dec(w, i, j)>>
Segment(w, i) == Until(w, i, Ctl \cup Blank \cup {63, 47})
RECURSIVE Segments(_, _)
Segments(w, i) == IF C(w, i) # 47 THEN <<>> ELSE LET j == Segment(w, i + 1) IN <<<<i + 1, j>>>> \o Segments(w, j)
Path(w, i) == LET s == Segments(w, i) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)][2], s>>
UrlParameter(w, i) == LET j == Until(w, i, Ctl \cup Blank \cup {38, 61}) k == Until(w, j + 1, Ctl \cup Blank \cup {38}) IN
    IF j = i THEN <<>> ELSE IF C(w, j) = 61 THEN <<k, <<i, j>>, <<j + 1, k>>>> ELSE <<j, <<i, j>>, None>>
RECURSIVE Query(_, _, _)
Query(w, i, out) == IF C(w, i) \in Ctl \cup Blank \cup {0} THEN <<i, out>> ELSE IF C(w, i) = 38 THEN Query(w, i + 1, out)
    ELSE LET p == UrlParameter(w, i) IN IF p = <<>> THEN <<i, out>> ELSE Query(w, p[1], Append(out, <<<<i, p[1]>>, p[2], p[3]>>))
\* <<end, server, port, its value, path, segments, parameters>>
Url(w, i) ==
    LET abs == HasI(w, i, <<104, 116, 116, 112, 58, 47, 47>>) s == IF abs THEN Server(w, i + 7) ELSE i
        colon == abs /\ C(w, s) = 58 p == IF colon THEN Port(w, s + 1) ELSE <<>>
        j == IF ~colon THEN s ELSE IF p = <<>> THEN s + 1 ELSE p[1]
        h == IF s = 0 THEN <<>> ELSE Path(w, j) q == IF h # <<>> /\ C(w, h[1]) = 63 THEN Query(w, h[1] + 1, <<>>) ELSE <<0, <<>>>> IN
    IF h = <<>> THEN <<>>
    ELSE <<IF q[1] = 0 THEN h[1] ELSE q[1], IF abs THEN <<i + 7, s>> ELSE None, IF p = <<>> THEN None ELSE <<s + 1, p[1]>>, IF ~colon THEN 80 ELSE IF p = <<>> THEN 0 ELSE p[2], <<j, h[1]>>, h[2], q[2]>>
Alpha == (65..90) \cup (97..122)
RECURSIVE Language(_, _)
Language(w, i) == LET j == While(w, i, Alpha) IN IF j = i THEN <<>> ELSE <<<<i, j>>>> \o (IF C(w, j) = 45 THEN Language(w, j + 1) ELSE <<>>)
\* <<end, thousandths>>, rounded by the fourth place, up to 1000
Weight(w, i) == LET j == While(w, i, 48..57) k == IF C(w, j) = 46 THEN While(w, j + 1, 48..57) ELSE j
                    d(n) == IF j + n < k THEN w[j + n] - 48 ELSE 0 IN
    IF k = i THEN <<>> ELSE <<k, Min2(1000000, Dec(w, i, j) * 1000 + 100 * d(1) + 10 * d(2) + d(3) + (IF d(4) > 4 THEN 1 ELSE 0))>>
\* <<end, asterisk, value, factor, thousandths, end of value>>; v: where the value ends or 0, a: the asterisk
Weighted(w, i, a, v) ==
    LET e == IF a # 0 THEN a ELSE v j == SkipSp(w, e) k == SkipSp(w, j + 1) l == SkipSp(w, k + 1) m == SkipSp(w, l + 1)
        f == IF e # 0 /\ C(w, j) = 59 /\ C(w, k) \in {113, 81} /\ C(w, l) = 61 THEN Weight(w, m) ELSE <<>> IN
    IF e = 0 THEN <<>>
    ELSE <<IF f = <<>> THEN e ELSE f[1], IF a = 0 THEN None ELSE <<i, a>>, IF a # 0 THEN None ELSE <<i, v>>, IF f = <<>> THEN None ELSE <<m, f[1]>>, IF f = <<>> THEN 1000 ELSE f[2]>>
End1(x) == IF x = <<>> THEN 0 ELSE x[1]
LastTo(s) == IF s = <<>> THEN 0 ELSE s[Len(s)][2]
WToken(w, i) == Weighted(w, i, IF C(w, i) = 42 THEN i + 1 ELSE 0, Token(w, i))
WMedia(w, i) == Weighted(w, i, AnyType(w, i), End1(MediaRange(w, i)))
WLanguage(w, i) == Weighted(w, i, IF C(w, i) = 42 THEN i + 1 ELSE 0, LastTo(Language(w, i)))
Agent(w, i) == LET j == Until(w, i, Blank \cup {47}) k == Until(w, j + 1, Blank) IN
    IF C(w, j) = 47 THEN <<k, <<i, j>>, <<j + 1, k>>>> ELSE IF j = i THEN <<>> ELSE <<j, <<i, j>>, None>>
Number(w, i, j) == Dec(w, i, Min2(j, While(w, i, 48..57)))
\* <<end, type, major, minor, version>>; there is something after it
Protocol(w, i) == LET j == Until(w, i, Blank \cup {47}) k == Until(w, j + 1, Blank \cup {46}) l == Until(w, k + 1, Blank) IN
    IF C(w, j) # 47 \/ k > Len(w) THEN <<>>
    ELSE IF w[k] # 46 THEN <<k, <<i, j>>, <<j + 1, k>>, None, Number(w, j + 1, k) * 256>>
    ELSE IF l > Len(w) THEN <<>> ELSE <<l, <<i, j>>, <<j + 1, k>>, <<k + 1, l>>, Number(w, j + 1, k) * 256 + Number(w, k + 1, l)>>
\* skips spaces on the line
RECURSIVE OnLine(_, _)
OnLine(w, i) == IF LineBreak(w, i) = 0 /\ Sp(C(w, i)) THEN OnLine(w, i + 1) ELSE i
RECURSIVE Word(_, _)
Word(w, i) == IF LineBreak(w, i) # 0 \/ Sp(C(w, i)) \/ i > Len(w) THEN i ELSE Word(w, i + 1)
RECURSIVE ToLineBreak(_, _)
ToLineBreak(w, i) == IF i > Len(w) THEN i ELSE IF LineBreak(w, i) # 0 THEN LineBreak(w, i) ELSE ToLineBreak(w, i + 1)
\* <<end, verb, url.., protocol..>>
Request(w, i) ==
    LET a == OnLine(w, i) b == Word(w, a) c == OnLine(w, b) stop(k) == k > Len(w) \/ LineBreak(w, k) # 0
        u == IF stop(a) \/ stop(b) \/ stop(c) THEN <<>> ELSE Url(w, c) IN
    IF u = <<>> THEN <<>>
    ELSE LET d == OnLine(w, u[1]) p == IF stop(d) THEN <<>> ELSE Protocol(w, d)
             e == IF d > Len(w) THEN d ELSE IF LineBreak(w, d) # 0 THEN LineBreak(w, d) ELSE IF p = <<>> THEN d ELSE ToLineBreak(w, p[1]) IN
         <<e, <<a, b>>, <<c, u[1]>>, Tail(u), p, IF p = <<>> THEN None ELSE <<d, p[1]>>>>
\* <<end, from, to>> of what follows in the header, continuing on lines that start with a space
RECURSIVE HeaderValue(_, _, _)
HeaderValue(w, i, v) ==
    IF i > Len(w) THEN <<i, v>>
    ELSE LET b == LineBreak(w, i) IN
         IF b # 0 THEN (IF LineBreak(w, b) = 0 /\ Sp(C(w, b)) THEN HeaderValue(w, b + 1, v) ELSE <<b, v>>)
         ELSE IF Sp(w[i]) THEN HeaderValue(w, i + 1, v) ELSE HeaderValue(w, i + 1, <<IF v = None THEN i ELSE v[1], i + 1>>)
RECURSIVE Name(_, _)
Name(w, i) == IF i > Len(w) \/ w[i] = 58 \/ LineBreak(w, i) # 0 \/ Sp(w[i]) THEN i ELSE Name(w, i + 1)
Header(w, i) == LET n == Name(w, i) c == OnLine(w, n) IN
    IF Sp(C(w, i)) \/ C(w, c) # 58 THEN <<>> ELSE LET v == HeaderValue(w, c + 1, None) IN <<v[1], <<i, n>>, v[2]>>
------------------------------------------------------------------------------
(* JSON, CSS, MIME *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Units(c, wide) == IF wide \/ c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>> ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Escapes == <<<<34, 34>>, <<47, 47>>, <<98, 8>>, <<102, 12>>, <<110, 10>>, <<114, 13>>, <<116, 9>>, <<92, 92>>>>
\* <<end, value>>. An unknown escape is not a string.
RECURSIVE Json(_, _, _, _)
Json(w, i, wide, v) ==
    IF i > Len(w) THEN <<>> ELSE IF w[i] = 34 THEN <<i + 1, v>>
    ELSE IF w[i] # 92 THEN Json(w, i + 1, wide, Append(v, w[i]))
    ELSE LET c == C(w, i + 1) h == [k \in 1..4 |-> Hex(C(w, i + 1 + k))] f == {k \in 1..8 : Escapes[k][1] = c} IN
         IF f # {} THEN Json(w, i + 2, wide, Append(v, Escapes[CHOOSE k \in f : TRUE][2]))
         ELSE IF c = 117 /\ \A k \in 1..4 : h[k] < 16 THEN Json(w, i + 6, wide, v \o Units(h[1] * 4096 + h[2] * 256 + h[3] * 16 + h[4], wide))
         ELSE <<>>
Comment(w, i) == LET k == IF Has(w, i, <<47, 42>>) THEN Find(w, i + 2, <<42, 47>>) ELSE 0 IN IF k = 0 THEN <<>> ELSE <<k + 2, <<i + 2, k>>>>
\* where the quote q is; quotes and backslashes may be escaped
RECURSIVE CssQuote(_, _, _)
CssQuote(w, i, q) == IF i > Len(w) THEN 0 ELSE IF w[i] = q THEN i ELSE CssQuote(w, IF w[i] = 92 /\ C(w, i + 1) \in {34, 39, 92} THEN i + 2 ELSE i + 1, q)
CssString(w, i) == LET k == IF C(w, i) \in {34, 39} THEN CssQuote(w, i + 1, w[i]) ELSE 0 IN IF k = 0 THEN <<>> ELSE <<k + 1, <<i + 1, k>>>>
\* what is between i and c without spaces around it
RECURSIVE Trim(_, _, _)
Trim(w, i, j) == IF j > i /\ Sp(w[j - 1]) THEN Trim(w, i, j - 1) ELSE <<i, j>>
CssUri(w, i) == LET j == SkipSp(w, i + 4) s == CssString(w, j) IN
    IF ~HasI(w, i, <<117, 114, 108, 40>>) THEN <<>>
    ELSE IF C(w, j) \in {34, 39} THEN (IF s = <<>> THEN <<>> ELSE LET k == SkipSp(w, s[1]) IN IF C(w, k) = 41 THEN <<k + 1, s[2]>> ELSE <<>>)
    ELSE LET k == Until(w, j, {41}) IN IF k > Len(w) THEN <<>> ELSE <<k + 1, Trim(w, j, k)>>
CssImport(w, i) == IF ~HasI(w, i, <<64, 105, 109, 112, 111, 114, 116>>) THEN <<>> ELSE CssString(w, SkipSp(w, i + 7))
\* <<end, type, subtype, charset>>
Mime(w, i) ==
    LET S == Blank \cup {47, 59} j == Until(w, i, S) k == Until(w, j + 1, S) n == SkipSp(w, k + 1) o == n + 8 q == C(w, o) z == Until(w, o + 1, {q}) IN
    IF j = i \/ C(w, j) # 47 \/ k = j + 1 \/ k > Len(w) + 1 THEN <<>>
    ELSE IF C(w, k) # 59 THEN <<k, <<i, j>>, <<j + 1, k>>, None>>
    ELSE IF ~HasI(w, n, <<99, 104, 97, 114, 115, 101, 116, 61>>) THEN <<n, <<i, j>>, <<j + 1, k>>, None>>
    ELSE IF q \in {34, 39} THEN (IF z > Len(w) THEN <<Len(w) + 1, <<i, j>>, <<j + 1, k>>, None>> ELSE <<z + 1, <<i, j>>, <<j + 1, k>>, <<o + 1, z>>>>)
    ELSE LET e == Until(w, o, Blank) IN <<e, <<i, j>>, <<j + 1, k>>, <<o, e>>>>
------------------------------------------------------------------------------
(* HTML tags *)
RECURSIVE IdentEnd(_, _)
IdentEnd(w, i) == IF i > Len(w) \/ C(w, i) \in {62, 61} \cup Blank \/ Has(w, i, <<47, 62>>) THEN i ELSE IdentEnd(w, i + 1)
Ident(w, i) == LET j == IdentEnd(w, i) IN IF j = i /\ i > Len(w) THEN 0 ELSE j
RECURSIVE Bare(_, _)
Bare(w, i) == IF i > Len(w) \/ C(w, i) \in {62} \cup Blank \/ Has(w, i, <<47, 62>>) THEN i ELSE Bare(w, i + 1)
AttrValue(w, i) == IF C(w, i) \in {34, 39} THEN (LET k == Until(w, i + 1, {w[i]}) IN IF k > Len(w) THEN <<>> ELSE <<k + 1, <<i + 1, k>>>>)
                   ELSE LET k == Bare(w, i) IN <<k, <<i, k>>>>
ELEMENT == 1 STARTTAG == 2 ENDTAG == 3 DECLARATION == 4 COMMENT == 5 INSTRUCTION == 6
\* <<end, type, attributes>>
RECURSIVE Attrs(_, _, _, _)
Attrs(w, i, ty, out) ==
    IF ty = STARTTAG /\ Has(w, i, <<47, 62>>) THEN <<i + 2, ELEMENT, out>>
    ELSE IF C(w, i) = 62 THEN <<i + 1, ty, out>>
    ELSE IF ty = DECLARATION /\ Has(w, i, <<33, 62>>) THEN <<i + 2, ty, out>>
    ELSE IF ty = DECLARATION /\ Has(w, i, <<45, 45>>) THEN (LET k == Find(w, i + 2, <<45, 45>>) IN IF k = 0 THEN <<>> ELSE Attrs(w, SkipSp(w, k + 2), ty, out))
    ELSE IF i > Len(w) THEN <<>>
    ELSE LET j == IdentEnd(w, i) k == SkipSp(w, j) m == SkipSp(w, k + 1) v == AttrValue(w, m) IN
         IF j = i /\ w[i] # 61 THEN Attrs(w, i + 1, ty, out)
         ELSE IF C(w, k) # 61 THEN Attrs(w, k, ty, Append(out, <<<<i, j>>, None>>))
         ELSE IF v = <<>> THEN Attrs(w, m, ty, Append(out, <<<<i, j>>, None>>))
         ELSE Attrs(w, SkipSp(w, v[1]), ty, Append(out, <<<<i, j>>, v[2]>>))
\* <<end, type, name, attributes>>
Tag(w, i) ==
    LET c == C(w, i + 1) rest(ty, n, j) == LET a == Attrs(w, SkipSp(w, j), ty, <<>>) IN IF a = <<>> THEN <<>> ELSE <<a[1], a[2], n, a[3]>> IN
    IF C(w, i) # 60 \/ c = 0 THEN <<>>
    ELSE IF c = 47 /\ Ident(w, i + 2) # 0 THEN rest(ENDTAG, <<i + 2, Ident(w, i + 2)>>, Ident(w, i + 2))
    ELSE IF Has(w, i, <<60, 33, 45, 45>>) THEN (LET k == Find(w, i + 4, <<45, 45, 62>>) IN IF k = 0 THEN <<>> ELSE <<k + 3, COMMENT, <<i + 4, k>>, <<>>>>)
    ELSE IF c = 33 THEN rest(DECLARATION, <<i + 2, i + 2>>, i + 2)
    ELSE IF c = 63 THEN (LET k == Until(w, i + 2, {62}) q == k > i + 2 /\ C(w, k - 1) = 63 IN IF k > Len(w) THEN <<>> ELSE <<k + 1, INSTRUCTION, <<i + 2, IF q THEN k - 1 ELSE k>>, <<>>>>)
    ELSE IF Ident(w, i + 1) # 0 THEN rest(STARTTAG, <<i + 1, Ident(w, i + 1)>>, Ident(w, i + 1))
    ELSE <<>>
CondStart(w, i) == LET j == SkipSp(w, i + 3) k == Until(w, j, {91, 62}) IN IF ~Has(w, i, <<60, 33, 91>>) \/ C(w, k) # 91 THEN <<>> ELSE <<k + 1, Trim(w, j, k)>>
CondEnd(w, i) == IF Has(w, i, <<93, 93, 62>>) THEN i + 3 ELSE 0
------------------------------------------------------------------------------
\* what the driver reports: ends and parts from 0, -1 where there is none
P0(p, o) == IF p = None THEN <<-1, -1>> ELSE <<o + p[1] - 1, o + p[2] - 1>>
RECURSIVE Ps(_, _)
Ps(s, o) == IF s = <<>> THEN <<>> ELSE P0(Head(s), o) \o Ps(Tail(s), o)
RECURSIVE PPs(_, _)
PPs(s, o) == IF s = <<>> THEN <<>> ELSE Ps(Head(s), o) \o PPs(Tail(s), o)
R(e, o, more) == IF e = 0 THEN <<0>> ELSE <<1, o + e - 1>> \o more
RS(x, o) == IF x = <<>> THEN <<0>> ELSE R(x[1], o, Ps(Tail(x), o))
Result(k, w, o, wide) ==
    LET M(x, more) == IF x = <<>> THEN <<0>> ELSE R(x[1], o, more) IN
    CASE k = 1 -> R(LineBreak(w, 1), o, <<>>) [] k = 2 -> R(Space(w, 1), o, <<>>) [] k = 3 -> R(TextChar(w, 1), o, <<>>) [] k = 4 -> R(Token(w, 1), o, <<>>)
      [] k = 5 -> RS(Quoted(w, 1), o) [] k = 6 -> RS(Value(w, 1), o) [] k = 7 -> RS(Parameter(w, 1), o) [] k = 8 -> R(AnyType(w, 1), o, <<>>)
      [] k = 9 -> RS(MediaRange(w, 1), o)
      [] k = 10 -> LET x == MediaType(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, P0(x[2], o) \o P0(x[3], o) \o <<Len(x[4])>> \o PPs(x[4], o))
      [] k = 11 -> R(Server(w, 1), o, <<>>)
      [] k = 12 -> LET x == Port(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, <<x[2]>>)
      [] k = 13 -> R(Segment(w, 1), o, <<>>)
      [] k = 14 -> LET x == Path(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, <<Len(x[2])>> \o Ps(x[2], o))
      [] k = 15 -> RS(UrlParameter(w, 1), o)
      [] k = 16 -> LET x == Url(w, 1) IN IF x = <<>> THEN <<0>>
                   ELSE R(x[1], o, P0(x[2], o) \o P0(x[3], o) \o <<x[4]>> \o P0(x[5], o) \o <<Len(x[6])>> \o Ps(x[6], o) \o <<Len(x[7])>> \o PPs(x[7], o))
      [] k = 17 -> LET x == Language(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(LastTo(x), o, <<Len(x)>> \o Ps(x, o))
      [] k = 18 -> LET x == Weight(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, <<x[2]>>)
      [] k = 19 -> R(IF C(w, 1) = 42 THEN 2 ELSE 0, o, <<>>)
      [] k \in {20, 21} -> LET x == IF k = 20 THEN WToken(w, 1) ELSE WMedia(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, P0(x[2], o) \o P0(x[3], o) \o P0(x[4], o) \o <<x[5]>>)
      [] k = 22 -> RS(CookieParameter(w, 1), o)
      [] k = 23 -> LET x == Cookie(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, Ps(x[2], o) \o <<Len(x[3])>> \o PPs(x[3], o))
      [] k = 24 -> RS(Agent(w, 1), o)
      [] k = 25 -> LET x == Protocol(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, Ps(<<x[2], x[3], x[4]>>, o) \o <<x[5] % 65536>>)
      [] k = 26 -> LET x == Request(w, 1) IN IF x = <<>> THEN <<0>>
                   ELSE LET u == x[4] p == x[5] IN R(x[1], o, P0(x[2], o) \o P0(x[3], o) \o P0(u[1], o) \o <<u[3]>> \o P0(u[4], o) \o <<Len(u[6])>> \o PPs(u[6], o)
                          \o P0(x[6], o) \o (IF p = <<>> THEN <<9>> ELSE <<p[5] % 65536>>))
      [] k = 27 -> RS(Header(w, 1), o)
      [] k = 30 -> LET x == IF C(w, 1) = 34 THEN Json(w, 2, wide, <<>>) ELSE <<>> IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, x[2])
      [] k = 31 -> RS(Comment(w, 1), o) [] k = 32 -> R(IF Has(w, 1, <<60, 33, 45, 45>>) THEN 5 ELSE 0, o, <<>>) [] k = 33 -> R(IF Has(w, 1, <<45, 45, 62>>) THEN 4 ELSE 0, o, <<>>)
      [] k = 34 -> RS(CssString(w, 1), o) [] k = 35 -> RS(CssUri(w, 1), o) [] k = 36 -> RS(CssImport(w, 1), o) [] k = 37 -> RS(Mime(w, 1), o)
      [] k = 40 -> R(Ident(w, 1), o, <<>>) [] k = 41 -> RS(AttrValue(w, 1), o)
      [] k = 42 -> LET x == Tag(w, 1) IN IF x = <<>> THEN <<0>> ELSE R(x[1], o, <<x[2]>> \o P0(x[3], o) \o <<Len(x[4])>> \o PPs(x[4], o))
      [] k = 43 -> RS(CondStart(w, 1), o)
      [] OTHER -> R(CondEnd(w, 1), o, <<>>)
\* elements of a list separated by commas, empty ones left out: <<from, thousandths>>
RECURSIVE Elements(_, _, _)
Elements(w, i, k) == LET j == While(w, i, Blank \cup {44}) x == CASE k = 20 -> WToken(w, j) [] k = 21 -> WMedia(w, j) [] OTHER -> WLanguage(w, j) IN
    IF x = <<>> THEN <<>> ELSE <<<<j, x[1], x[5]>>>> \o Elements(w, x[1], k)
\* the most wanted first, in the order given otherwise
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE
    LET m == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : s[j][3] <= s[i][3]) /\ (\A j \in 1..(i - 1) : s[j][3] < s[i][3]) IN
    <<s[m]>> \o Sorted(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
RECURSIVE EOut(_, _)
EOut(s, o) == IF s = <<>> THEN <<>> ELSE <<o + s[1][1] - 1, o + s[1][2] - 1, s[1][3]>> \o EOut(Tail(s), o)
Read(a) == LET u == Drop(a, 3) e == IF a[3] < 0 THEN Len(u) ELSE Min2(a[3], Len(u)) v == SubSeq(u, a[2] + 1, e) z == Until(v, 1, {0}) IN SubSeq(v, 1, z - 1)
\* what is left of a recognizer told to forget
No2(n) == [i \in 1..(2 * n) |-> -1]
Left(k) == CASE k \in {5, 31, 34, 35, 36, 41, 43} -> No2(1) [] k = 6 -> No2(3) [] k = 7 -> No2(4) [] k = 9 -> No2(2) [] k = 10 -> No2(2) \o <<0>>
             [] k \in {12, 14, 17} -> <<0>> [] k \in {15, 24, 27} -> No2(2) [] k = 16 -> No2(2) \o <<0>> \o No2(1) \o <<0, 0>> [] k = 18 -> <<1000>> [] k \in {20, 21} -> No2(3) \o <<1000>>
             [] k = 22 -> No2(4) [] k = 23 -> No2(4) \o <<0>> [] k = 25 -> No2(3) \o <<9>> [] k = 26 -> No2(3) \o <<0>> \o No2(1) \o <<0>> \o No2(1) \o <<9>>
             [] k = 37 -> No2(3) [] k = 42 -> <<-1>> \o No2(1) \o <<0>> [] OTHER -> <<>>
MStart(a) == {a}
MEval(s, op, a) ==   \* class: 0 char, 1 wchar_t. kind, start, end (-1: terminated), text..
    CASE op = "match" -> {[r |-> Result(a[1], Read(a), a[2], s[1] = 1), s |-> s]}
      [] op = "drop" -> {[r |-> <<0>> \o Left(a[1]), s |-> s]}
      [] op = "collect" -> {[r |-> LET x == Sorted(Elements(Read(a), 1, a[1])) IN <<Len(x)>> \o EOut(x, a[2]), s |-> s]}
      [] OTHER -> {}
=============================================================================
