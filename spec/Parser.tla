------------------------------- MODULE Parser -------------------------------
(* T05, T08. A grammar is a table of nodes, each refering to earlier ones:         *)
(*   <<kind, parameters...>>                                                 *)
(* M tells what matching a node at a position of the text means: whether it  *)
(* matches, where it ends, its own extras x and y (chosen alternative,       *)
(* value; Wild where nothing is promised), and the views v of the nodes under *)
(* it: <<id, matched, start, end, x, y>>.                                    *)
(* Classes of characters: 0 bytes, 1 wide, 2 bytes with SGML entities.       *)
EXTENDS Bytes
NOOP == 0 ANY == 1 CU == 2 SPACE == 3 PUNCT == 4 SPUNCT == 5 BOL == 6 EOL == 7 SET == 8 STR == 9 ITER == 10 SEQ == 11 BRANCH == 12 STRS == 13 PERM == 14
INT10 == 15 INT10TS == 16 INT16 == 17 ROMAN == 18 FRACTION == 19 SCORE == 20 SIGNED == 21 MIXED == 22 SCI == 23 MONEY == 24 IPV4 == 25
\* recognizers (T08)
DNSCHAR == 30 USERCHAR == 31 PASSCHAR == 32 PATHCHAR == 33 SCOPECHAR == 34 IPV6 == 35 DNS == 36 URLPATH == 37 URL == 38 EMAIL == 39 EMOTICON == 40
DATE == 41 TIME == 42 ANGLE == 43 PHONE == 44 IBAN == 45 CREDITOR == 46 SIREF == 47 FORMULA == 48
Wild == -7
Huge == -1                  \* SIZE_MAX: no hit
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
IsSpace(c) == c \in (9..13) \cup {32}
IsPunct(c) == c \in (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
IsBreak(c) == c \in {10, 13}
CI(f) == f % 2 = 1
ML(f) == f \div 2 = 1
Same(f, a, b) == a = b \/ (CI(f) /\ Lower(a) = Lower(b))
\* there is a character at p: text[p] before the limit e (which is Len(u) at most) and not zero
Has(u, p, e) == p < e /\ u[p + 1] # 0
At(u, p) == u[p + 1]

\* SGML: what an entity stands for
Sg == INSTANCE Sgml
Ent(s) == LET x == Sg!Stands(s) IN IF x = <<>> THEN <<>> ELSE x[1]
\* where the entity candidate at p ends (its semicolon), -1 if nowhere
RECURSIVE Semi(_, _, _)
Semi(u, p, e) == IF ~Has(u, p, e) \/ At(u, p) = 38 \/ IsSpace(At(u, p)) THEN -1 ELSE IF At(u, p) = 59 THEN p ELSE Semi(u, p + 1, e)
Cp(c, u, p, e) == LET q == IF c = 2 /\ At(u, p) = 38 THEN Semi(u, p + 1, e) ELSE -1
                      t == IF q < 0 THEN <<>> ELSE Ent(SubSeq(u, p + 2, q)) IN
                  IF t = <<>> THEN [c |-> <<At(u, p)>>, e |-> p + 1] ELSE [c |-> t, e |-> q + 1]
RECURSIVE Cps(_, _, _, _)          \* the characters of a whole SGML text (no limit)
Cps(c, u, p, e) == IF ~Has(u, p, e) THEN <<>> ELSE LET x == Cp(c, u, p, e) IN x.c \o Cps(c, u, x.e, e)

No == [ok |-> FALSE, e |-> 0, x |-> Wild, y |-> Wild, v |-> <<>>]
Yes(e) == [ok |-> TRUE, e |-> e, x |-> Wild, y |-> Wild, v |-> <<>>]
YesX(e, x, y) == [ok |-> TRUE, e |-> e, x |-> x, y |-> y, v |-> <<>>]
YesV(e, v) == [ok |-> TRUE, e |-> e, x |-> Wild, y |-> Wild, v |-> v]
\* the view of node id matched by r at s, with everything under it; the view of a node that took no part
View(id, s, r) == IF r.ok THEN <<<<id, 1, s, r.e, r.x, r.y>>>> \o r.v ELSE <<<<id, 0, 0, 0, Wild, Wild>>>>
Not(id) == <<<<id, 0, 0, 0, Wild, Wild>>>>
Nots(ids) == [i \in 1..Len(ids) |-> Not(ids[i])[1]]
Sub2(u, p, n) == SubSeq(u, p + 1, p + n)
RECURSIVE Index(_, _, _, _)        \* first position in w where x is
Index(w, x, f, i) == IF i + Len(x) > Len(w) THEN -1
    ELSE IF \A k \in 1..Len(x) : Same(f, w[i + k], x[k]) THEN i ELSE Index(w, x, f, i + 1)
RECURSIVE Split(_)                 \* zero-delimited strings, up to an empty one
Split(s) == LET z == {i \in 1..Len(s) : s[i] = 0} k == IF z = {} THEN Len(s) + 1 ELSE CHOOSE i \in z : \A j \in z : i <= j IN
    IF k = 1 \/ s = <<>> THEN <<>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)))
\* a literal: the characters w at p
RECURSIVE Lit(_, _, _, _, _, _)
Lit(c, u, w, p, e, f) == IF w = <<>> THEN Yes(p)
    ELSE IF ~Has(u, p, e) THEN No
    ELSE LET x == Cp(c, u, p, e) IN
         IF Len(x.c) > Len(w) \/ \E k \in 1..Len(x.c) : ~Same(f, x.c[k], w[k]) THEN No ELSE Lit(c, u, SubSeq(w, Len(x.c) + 1, Len(w)), x.e, e, f)
RECURSIVE FirstOf(_, _, _, _, _, _, _)
FirstOf(c, u, ws, i, p, e, f) == IF i > Len(ws) THEN No ELSE LET r == Lit(c, u, ws[i], p, e, f) IN IF r.ok THEN YesX(r.e, i - 1, Wild) ELSE FirstOf(c, u, ws, i + 1, p, e, f)
\* a one-character class
One(c, u, p, e, inv, T(_)) == IF ~Has(u, p, e) THEN No ELSE LET x == Cp(c, u, p, e) IN IF T(x.c) # (inv = 1) THEN Yes(x.e) ELSE No
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000 [] n = 6 -> 1000000 [] n = 7 -> 10000000 [] OTHER -> 100000000

RECURSIVE M(_, _, _, _, _, _, _)
RECURSIVE M2(_, _, _, _, _, _, _)
\* one of the digits ids at p
RECURSIVE DigitAt(_, _, _, _, _, _, _, _)
DigitAt(N, c, u, ids, i, p, e, f) == IF i > Len(ids) THEN [d |-> -1, e |-> p]
    ELSE IF ids[i] < 0 THEN DigitAt(N, c, u, ids, i + 1, p, e, f)
    ELSE LET r == M(N, c, u, ids[i], p, e, f) IN IF r.ok THEN [d |-> i - 1, e |-> r.e] ELSE DigitAt(N, c, u, ids, i + 1, p, e, f)
RECURSIVE Digits(_, _, _, _, _, _, _)
Digits(N, c, u, ids, p, e, f) == IF ~Has(u, p, e) THEN <<>>
    ELSE LET d == DigitAt(N, c, u, ids, 1, p, e, f) IN IF d.d < 0 THEN <<>> ELSE <<d>> \o Digits(N, c, u, ids, d.e, e, f)
RECURSIVE ValueOf(_, _, _)
ValueOf(ds, base, v) == IF ds = <<>> THEN v ELSE ValueOf(Tail(ds), base, v * base + Head(ds).d)
Last(s) == s[Len(s)]
Integer(N, c, u, ids, base, p, e, f) == LET ds == Digits(N, c, u, ids, p, e, f) IN
    IF ds = <<>> THEN No ELSE YesX(Last(ds).e, IF Len(ds) > (IF base = 10 THEN 9 ELSE 7) THEN Wild ELSE ValueOf(ds, base, 0), Wild)
\* groups of three digits after a separator, always the same
RECURSIVE Groups(_, _, _, _, _, _, _, _, _, _)
Groups(N, c, u, int, sep, hit, p, e, f, gs) ==
    LET s == M(N, c, u, sep, p, e, f) d == IF s.ok THEN M(N, c, u, int, s.e, e, f) ELSE No IN
    IF s.ok /\ (hit = -2 \/ s.x = hit) /\ d.ok /\ d.e - s.e = 3 THEN Groups(N, c, u, int, sep, s.x, d.e, e, f, Append(gs, [e |-> d.e, x |-> d.x])) ELSE gs
RECURSIVE GroupValue(_, _)
GroupValue(gs, v) == IF gs = <<>> THEN v ELSE GroupValue(Tail(gs), v * 1000 + Head(gs).x)
RECURSIVE Spaces(_, _, _, _, _, _, _)
Spaces(N, c, u, id, p, e, f) == LET r == M(N, c, u, id, p, e, f) IN IF r.ok /\ r.e > p THEN Spaces(N, c, u, id, r.e, e, f) ELSE p
NoML(f) == f % 2
\* Roman numerals: digits are taken as long as they continue a numeral. prev, prev2, prev3: the values before (0 none); a
\* subtracted pair counts as one digit
RV == <<1, 5, 10, 50, 100, 500, 1000, 5000, 10000>>
RECURSIVE Roman(_, _, _, _, _, _, _, _, _, _, _)
Roman(N, c, u, ids, p, e, f, v, first, w, base) ==      \* w: digits before, latest first; base: 0 or end
    LET d == IF Has(u, p, e) THEN DigitAt(N, c, u, ids, 1, p, e, f) ELSE [d |-> -1, e |-> p] IN
    IF d.d < 0 THEN [e |-> p, v |-> v]
    ELSE LET x == RV[d.d + 1] f1 == IF first = 0 THEN x ELSE first
             a == IF Len(w) > 0 THEN w[1] ELSE 0 b == IF Len(w) > 1 THEN w[2] ELSE 0 g == IF Len(w) > 2 THEN w[3] ELSE 0 IN
         IF a = x /\ b = x /\ g = x /\ x # f1 THEN [e |-> p, v |-> v]
         ELSE IF a = 0 \/ x <= a THEN Roman(N, c, u, ids, d.e, e, f, v + x, f1, <<x>> \o SubSeq(w, 1, Min2(2, Len(w))), base)
         ELSE IF a \in {1, 10, 100, 1000} /\ x \in {5 * a, 10 * a} /\ ~(b # 0 /\ b < x)
              THEN Roman(N, c, u, ids, d.e, e, f, v - 2 * a + x, f1, <<x - a>> \o SubSeq(w, 2, Len(w)), base)
         ELSE [e |-> p, v |-> v]
RECURSIVE Iterate(_, _, _, _, _, _, _, _, _)
Iterate(N, c, u, nd, i, s, p, e, f) ==    \* nd = <<_, el, min, max, greedy>>
    IF (nd[5] = 0 /\ i >= nd[3]) \/ (nd[4] >= 0 /\ i >= nd[4]) THEN Yes(p)
    ELSE LET r == M(N, c, u, nd[2], p, e, f) IN
         IF ~r.ok THEN (IF i >= nd[3] THEN Yes(p) ELSE No)
         ELSE IF r.e = p THEN Yes(p)      \* matches nothing: could do so for ever
         ELSE Iterate(N, c, u, nd, i + 1, s, r.e, e, f)
RECURSIVE Chain(_, _, _, _, _, _, _, _)
Chain(N, c, u, ids, p, e, f, v) == IF ids = <<>> THEN YesV(p, v)
    ELSE LET r == M(N, c, u, Head(ids), p, e, f) IN IF ~r.ok THEN No ELSE Chain(N, c, u, Tail(ids), r.e, e, f, v \o View(Head(ids), p, r))
RECURSIVE Choice(_, _, _, _, _, _, _, _)
Choice(N, c, u, ids, i, p, e, f) == IF i > Len(ids) THEN No
    ELSE LET r == M(N, c, u, ids[i], p, e, f) IN
         IF r.ok THEN [YesX(r.e, i - 1, Wild) EXCEPT !.v = View(ids[i], p, r) \o Nots(SubSeq(ids, 1, i - 1)) \o Nots(SubSeq(ids, i + 1, Len(ids)))] ELSE Choice(N, c, u, ids, i + 1, p, e, f)
\* the first arrangement (in the order of the elements) that matches
RECURSIVE Arrange(_, _, _, _, _, _, _, _, _)
Arrange(N, c, u, left, i, p, e, f, v) == IF left = <<>> THEN YesV(p, v)
    ELSE IF i > Len(left) THEN No
    ELSE LET r == M(N, c, u, left[i], p, e, f)
             q == IF r.ok THEN Arrange(N, c, u, SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, Len(left)), 1, r.e, e, f, v \o View(left[i], p, r)) ELSE No IN
         IF q.ok THEN q ELSE Arrange(N, c, u, left, i + 1, p, e, f, v)
\* an optional sign: the first of ids (-1: none) that matches
RECURSIVE Sign(_, _, _, _, _, _, _, _)
Sign(N, c, u, ids, i, p, e, f) == IF i > Len(ids) THEN [e |-> p, i |-> 0, v |-> Nots(SelectSeq(ids, LAMBDA x : x >= 0))]
    ELSE IF ids[i] < 0 THEN Sign(N, c, u, ids, i + 1, p, e, f)
    ELSE LET r == M(N, c, u, ids[i], p, e, f) IN
         IF r.ok THEN [e |-> r.e, i |-> i, v |-> View(ids[i], p, r) \o Nots(SelectSeq([k \in 1..Len(ids) |-> IF k = i THEN -1 ELSE ids[k]], LAMBDA x : x >= 0))]
         ELSE Sign(N, c, u, ids, i + 1, p, e, f)
\* <integer>, <integer> <spaces> <fraction>, <fraction>
Mixed(N, c, u, int, sp, fr, p, e, f) ==
    LET i == M(N, c, u, int, p, e, f) s == IF i.ok THEN M(N, c, u, sp, i.e, e, NoML(f)) ELSE No
        q == IF s.ok THEN Spaces(N, c, u, sp, s.e, e, NoML(f)) ELSE 0
        r == IF s.ok THEN M(N, c, u, fr, q, e, f) ELSE M(N, c, u, fr, p, e, f) IN
    CASE i.ok /\ s.ok /\ r.ok -> YesV(r.e, View(int, p, i) \o View(fr, q, r))
      [] i.ok /\ s.ok -> YesV(i.e, View(int, p, i) \o Not(fr))
      [] r.ok -> YesV(r.e, Not(int) \o View(fr, p, r))
      [] i.ok -> YesV(i.e, View(int, p, i) \o Not(fr))
      [] OTHER -> No
\* <integer> [<separator> <decimal>] where one of the two may be missing
Decimal(N, c, u, int, sep, dec, p, e, f) ==
    LET i == M(N, c, u, int, p, e, f) q == IF i.ok THEN i.e ELSE p
        s == M(N, c, u, sep, q, e, f) d == IF s.ok THEN M(N, c, u, dec, s.e, e, f) ELSE No IN
    IF ~(i.ok /\ i.e > p) /\ ~(d.ok /\ d.e > s.e) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, e |-> IF d.ok THEN d.e ELSE q, i |-> IF i.ok THEN i.x ELSE 0, d |-> IF d.ok THEN d.x ELSE 0, n |-> IF d.ok THEN d.e - s.e ELSE 0,
          v |-> View(int, p, i) \o (IF d.ok THEN View(sep, q, s) \o View(dec, s.e, d) ELSE Not(sep) \o Not(dec))]
Exponent(N, c, u, sym, ps, ns, ex, p, e, f) ==
    LET ids == SelectSeq(<<sym, ps, ns, ex>>, LAMBDA x : x >= 0)
        none == [e |-> p, x |-> 0, v |-> Nots(ids)]
        y == IF sym < 0 \/ ex < 0 THEN No ELSE M(N, c, u, sym, p, e, f)
        a == IF y.ok /\ ps >= 0 THEN M(N, c, u, ps, y.e, e, f) ELSE No
        ax == IF a.ok THEN M(N, c, u, ex, a.e, e, f) ELSE No
        bx == IF y.ok THEN M(N, c, u, ex, y.e, e, f) ELSE No
        m == IF y.ok /\ ns >= 0 THEN M(N, c, u, ns, y.e, e, f) ELSE No
        mx == IF m.ok THEN M(N, c, u, ex, m.e, e, f) ELSE No
        O(id) == IF id < 0 THEN <<>> ELSE Not(id) IN
    CASE ax.ok -> [e |-> ax.e, x |-> ax.x, v |-> View(sym, p, y) \o View(ps, y.e, a) \o View(ex, a.e, ax) \o O(ns)]
      [] ~ax.ok /\ bx.ok -> [e |-> bx.e, x |-> bx.x, v |-> View(sym, p, y) \o O(ns) \o View(ex, y.e, bx)]
      [] ~ax.ok /\ ~bx.ok /\ mx.ok -> [e |-> mx.e, x |-> IF mx.x = Wild THEN Wild ELSE -mx.x, v |-> View(sym, p, y) \o View(ns, y.e, m) \o View(ex, m.e, mx) \o O(ps)]
      [] OTHER -> none
\* one millionth of value (i + d / 10^n) * 10^x, Wild when out of range
Millionths(neg, i, d, n, x) == IF i = Wild \/ d = Wild \/ x = Wild \/ n > 6 \/ x \notin -8..8 \/ i > 99999 THEN Wild
    ELSE LET k == 6 - n + x            \* (i * 10^n + d) * 10^k
             w == IF n > 4 /\ i > 999 THEN -1 ELSE i * Pow10(n) + d
             z == IF w = -1 THEN Wild ELSE IF w = 0 THEN 0 ELSE IF k < 0 THEN (IF -k > 8 THEN Wild ELSE IF w % Pow10(-k) # 0 THEN Wild ELSE w \div Pow10(-k))
                  ELSE IF k > 8 \/ w > 2000000000 \div Pow10(k) THEN Wild ELSE w * Pow10(k) IN
         IF z = Wild THEN Wild ELSE IF neg THEN -z ELSE z
RECURSIVE Octet(_, _, _, _, _, _, _, _)
Octet(N, c, u, ids, p, e, f, v) == LET d == IF Has(u, p, e) THEN DigitAt(N, c, u, ids, 1, p, e, f) ELSE [d |-> -1, e |-> p] IN
    IF d.d < 0 \/ v * 10 + d.d > 255 THEN [e |-> p, v |-> v] ELSE Octet(N, c, u, ids, d.e, e, f, v * 10 + d.d)
IPv4(N, c, u, ids, sep, p, e, f) ==
    LET RECURSIVE G(_, _, _)
        G(k, q, vs) == LET s == IF k = 0 THEN Yes(q) ELSE M(N, c, u, sep, q, e, f) IN
            IF ~s.ok THEN No ELSE LET o == Octet(N, c, u, ids, s.e, e, f, 0) IN
            IF o.e = s.e THEN No
            ELSE IF k = 3 THEN YesX(o.e, vs[1] * 256 + vs[2], vs[3] * 256 + o.v) ELSE G(k + 1, o.e, Append(vs, o.v)) IN G(0, p, <<>>)

M(N, c, u, id, p, e, f) ==
    LET nd == N[id + 1] k == nd[1] IN
    CASE k = NOOP -> IF Has(u, p, e) THEN Yes(p) ELSE No
      [] k = ANY -> IF ~Has(u, p, e) THEN No
                    ELSE IF c = 2 /\ At(u, p) = 38 /\ Semi(u, p + 1, e) >= 0 THEN Yes(Semi(u, p + 1, e) + 1)   \* also unknown entities
                    ELSE Yes(p + 1)
      [] k = CU -> LET w == IF c = 2 THEN Cp(2, SubSeq(nd, 3, Len(nd)), 0, Len(nd) - 2).c ELSE <<nd[3]>> IN
                   One(c, u, p, e, nd[2], LAMBDA x : Len(x) = Len(w) /\ \A i \in 1..Len(w) : Same(f, x[i], w[i]))
      [] k = SPACE -> One(c, u, p, e, nd[2], LAMBDA x : (ML(f) \/ ~IsBreak(x[1])) /\ \A i \in 1..Len(x) : IsSpace(x[i]))
      [] k = PUNCT -> One(c, u, p, e, nd[2], LAMBDA x : \A i \in 1..Len(x) : IsPunct(x[i]))
      [] k = SPUNCT -> One(c, u, p, e, nd[2], LAMBDA x : (ML(f) \/ ~IsBreak(x[1])) /\ \A i \in 1..Len(x) : IsSpace(x[i]) \/ IsPunct(x[i]))
      [] k = BOL -> IF (p = 0 \/ (p <= e /\ IsBreak(At(u, p - 1)))) # (nd[2] = 1) THEN Yes(p) ELSE No
      [] k = EOL -> IF (~Has(u, p, e) \/ IsBreak(At(u, p))) # (nd[2] = 1) THEN Yes(p) ELSE No
      [] k = SET -> IF ~Has(u, p, e) THEN No
                    ELSE LET x == Cp(c, u, p, e) raw == SubSeq(nd, 3, Len(nd)) w == IF c = 2 THEN Cps(2, raw, 0, Len(raw)) ELSE raw
                             h == Index(w, x.c, f, 0) IN
                         IF (h >= 0) # (nd[2] = 1) THEN YesX(x.e, h, Wild) ELSE No
      [] k = STR -> LET raw == SubSeq(nd, 2, Len(nd)) IN Lit(c, u, IF c = 2 THEN Cps(2, raw, 0, Len(raw)) ELSE raw, p, e, f)
      [] k = STRS -> LET ws == Split(SubSeq(nd, 2, Len(nd))) IN FirstOf(c, u, [i \in 1..Len(ws) |-> IF c = 2 THEN Cps(2, ws[i], 0, Len(ws[i])) ELSE ws[i]], 1, p, e, f)
      [] k = ITER -> Iterate(N, c, u, nd, 0, p, p, e, f)
      [] k = SEQ -> Chain(N, c, u, Tail(nd), p, e, f, <<>>)
      [] k = BRANCH -> Choice(N, c, u, Tail(nd), 1, p, e, f)
      [] k = PERM -> Arrange(N, c, u, Tail(nd), 1, p, e, f, <<>>)
      [] k = INT10 -> Integer(N, c, u, Tail(nd), 10, p, e, f)
      [] k = INT16 -> Integer(N, c, u, Tail(nd), 16, p, e, f)
      [] k = INT10TS -> LET r == M(N, c, u, nd[2], p, e, f) n == r.e - p IN
                        IF ~r.ok THEN No
                        ELSE LET gs == IF n <= 3 THEN Groups(N, c, u, nd[2], nd[3], -2, r.e, e, f, <<>>) ELSE <<>> IN
                             YesX(IF gs = <<>> THEN r.e ELSE Last(gs).e, IF Len(gs) > 2 THEN Wild ELSE IF r.x = Wild THEN Wild ELSE GroupValue(gs, r.x), 2 * (n + 3 * Len(gs)) + (IF gs = <<>> THEN 0 ELSE 1))
      [] k = ROMAN -> LET r == Roman(N, c, u, Tail(nd), p, e, f, 0, 0, <<>>, 0) IN IF r.v = 0 THEN No ELSE YesX(r.e, r.v, Wild)
      [] k = FRACTION -> Chain(N, c, u, SubSeq(nd, 2, 4), p, e, f, <<>>)
      [] k = SCORE -> LET h == M(N, c, u, nd[2], p, e, f) p1 == IF h.ok THEN Spaces(N, c, u, nd[5], h.e, e, NoML(f)) ELSE 0
                          s == IF h.ok THEN M(N, c, u, nd[3], p1, e, f) ELSE No p2 == IF s.ok THEN Spaces(N, c, u, nd[5], s.e, e, NoML(f)) ELSE 0
                          g == IF s.ok THEN M(N, c, u, nd[4], p2, e, f) ELSE No IN
                      IF g.ok THEN YesV(g.e, View(nd[2], p, h) \o View(nd[3], p1, s) \o View(nd[4], p2, g)) ELSE No
      [] k = SIGNED -> LET s == Sign(N, c, u, SubSeq(nd, 2, 4), 1, p, e, f) r == M(N, c, u, nd[5], s.e, e, f) IN IF r.ok THEN YesV(r.e, s.v \o View(nd[5], s.e, r)) ELSE No
      [] k = MIXED -> LET s == Sign(N, c, u, SubSeq(nd, 2, 4), 1, p, e, f) r == Mixed(N, c, u, nd[5], nd[6], nd[7], s.e, e, f) IN IF r.ok THEN YesV(r.e, s.v \o r.v) ELSE No
      [] k = SCI -> LET s == Sign(N, c, u, SubSeq(nd, 2, 4), 1, p, e, f) d == Decimal(N, c, u, nd[5], nd[6], nd[7], s.e, e, f) IN
                    IF ~d.ok THEN No
                    ELSE LET x == Exponent(N, c, u, nd[8], nd[9], nd[10], nd[11], d.e, e, f) IN
                         [YesX(x.e, Millionths(s.i = 2, d.i, d.d, d.n, x.x), Wild) EXCEPT !.v = s.v \o d.v \o x.v]
      [] k = MONEY -> LET s == Sign(N, c, u, SubSeq(nd, 2, 4), 1, p, e, f) y == M(N, c, u, nd[5], s.e, e, f) IN
                      IF ~y.ok THEN No
                      ELSE LET d == Decimal(N, c, u, nd[6], nd[7], nd[8], y.e, e, f) IN IF ~d.ok THEN No ELSE YesV(d.e, s.v \o View(nd[5], s.e, y) \o d.v)
      [] k = IPV4 -> IPv4(N, c, u, SubSeq(nd, 2, 11), nd[12], p, e, f)
      [] OTHER -> M2(N, c, u, id, p, e, f)

------------------------------------------------------------------------------
\* Recognizers. Views of parts that are not parsers on their own are numbered id + 1000 * k.
IsDigit(x) == x \in 48..57
IsUpper(x) == x \in 65..90
IsAlNum(x) == IsDigit(x) \/ Lower(x) \in 97..122
Upper(x) == IF x \in 97..122 THEN x - 32 ELSE x
RECURSIVE HashOf(_, _)
HashOf(s, h) == IF s = <<>> THEN h ELSE HashOf(Tail(s), (h * 31 + Head(s)) % 65521)
Digest(s) == HashOf(s, 7)
Or(id, s, r) == IF id < 0 THEN <<>> ELSE IF r.ok THEN View(id, s, r) ELSE Not(id)
Opt(N, c, u, id, p, e, f) == IF id < 0 THEN No ELSE M(N, c, u, id, p, e, f)
Nones(ids) == Nots(SelectSeq(ids, LAMBDA x : x >= 0))
Part(id, k, s, e, x, y) == <<<<id + 1000 * k, 1, s, e, x, y>>>>
NoPart(id, k) == Not(id + 1000 * k)
UserChars == {45, 46, 95, 126, 37, 33, 36, 38, 39, 42, 43, 44, 59, 61}
PassChars == UserChars \cup {40, 41, 58}
PathChars == PassChars \cup {47, 64, 63, 35}
CharIn(c, u, p, e, S) == One(c, u, p, e, 0, LAMBDA x : (Len(x) = 1 /\ x[1] \in S) \/ \A i \in 1..Len(x) : IsAlNum(x[i]))
\* four hexadecimal digits or more, as long as the value fits
RECURSIVE Hex(_, _, _, _, _, _, _, _)
Hex(N, c, u, ids, p, e, f, v) == LET d == IF Has(u, p, e) THEN DigitAt(N, c, u, ids, 1, p, e, f) ELSE [d |-> -1, e |-> p] IN
    IF d.d < 0 \/ v * 16 + d.d > 65535 THEN [e |-> p, v |-> v] ELSE Hex(N, c, u, ids, d.e, e, f, v * 16 + d.d)
\* groups w (start, end, value) at p; ci: how many precede the compaction (-1: none), which starts at cs
RECURSIVE IPv6(_, _, _, _, _, _, _, _, _, _)
IPv6(N, c, u, nd, p, e, f, w, ci, cs) ==
    LET i == Len(w) done == [ok |-> i = 8 \/ ci >= 0, e |-> p, w |-> w, ci |-> ci, cs |-> cs] IN
    IF i = 8 THEN done
    ELSE LET s == M(N, c, u, nd[18], p, e, f) t == IF s.ok THEN M(N, c, u, nd[18], s.e, e, f) ELSE No IN
         IF s.ok /\ t.ok /\ ci >= 0 THEN done
         ELSE IF s.ok /\ ~t.ok /\ i = 0 THEN [done EXCEPT !.ok = FALSE]
         ELSE IF ~s.ok /\ i > 0 THEN done
         ELSE LET q == IF t.ok THEN t.e ELSE IF s.ok THEN s.e ELSE p o == Hex(N, c, u, SubSeq(nd, 2, 17), q, e, f, 0)
                  k == IF t.ok THEN i ELSE ci z == IF t.ok THEN s.e ELSE cs IN
              IF o.e = q THEN [done EXCEPT !.ok = k >= 0, !.e = IF k = i THEN q ELSE p, !.ci = k, !.cs = z]
              ELSE IPv6(N, c, u, nd, o.e, e, f, Append(w, <<q, o.e, o.v>>), k, z)
Groups8(r) == IF r.ci < 0 THEN r.w ELSE SubSeq(r.w, 1, r.ci) \o [i \in 1..(8 - Len(r.w)) |-> <<r.cs, r.cs, 0>>] \o SubSeq(r.w, r.ci + 1, Len(r.w))
\* a domain: labels of characters that neither start nor end with a hyphen; g: where the name ends so far
Edge(c, u, p, e) == Cp(c, u, p, e).c # <<45>>
RECURSIVE Domain(_, _, _, _, _, _, _, _, _)
Domain(N, c, u, nd, p, e, f, g, lab) ==      \* lab: 0 a label starts here, 1 after a letter, 2 after a hyphen
    LET s == IF lab = 1 THEN M(N, c, u, nd[4], p, e, f) ELSE No x == M(N, c, u, nd[3], p, e, f) IN
    IF ~Has(u, p, e) THEN g
    ELSE IF s.ok THEN Domain(N, c, u, nd, s.e, e, f, IF nd[2] = 1 THEN s.e ELSE g, 0)
    ELSE IF ~x.ok THEN g
    ELSE IF Edge(c, u, p, e) THEN Domain(N, c, u, nd, x.e, e, f, x.e, 1)
    ELSE IF lab = 0 THEN g
    ELSE Domain(N, c, u, nd, x.e, e, f, g, 2)
\* path[?query][#bookmark]; k: the part that p is in; w: the parts before
RECURSIVE UrlPath(_, _, _, _, _, _, _, _, _, _)
UrlPath(N, c, u, nd, id, p, e, f, b, k) ==   \* b: <<start of path, query, bookmark (-1: none)>>
    LET q == IF k < 1 THEN M(N, c, u, nd[3], p, e, f) ELSE No m == IF k < 2 /\ ~q.ok THEN M(N, c, u, nd[4], p, e, f) ELSE No x == M(N, c, u, nd[2], p, e, f) IN
    CASE Has(u, p, e) /\ q.ok -> UrlPath(N, c, u, nd, id, q.e, e, f, <<b[1], q.e, -1, p, -1>>, 1)
      [] Has(u, p, e) /\ ~q.ok /\ m.ok -> UrlPath(N, c, u, nd, id, m.e, e, f, <<b[1], b[2], m.e, IF k = 0 THEN p ELSE b[4], IF k = 1 THEN p ELSE -1>>, 2)
      [] Has(u, p, e) /\ ~q.ok /\ ~m.ok /\ x.ok -> UrlPath(N, c, u, nd, id, x.e, e, f, b, k)
      [] OTHER -> IF p = b[1] THEN No
                  ELSE YesV(p, Part(id, 1, b[1], IF k = 0 THEN p ELSE b[4], Wild, Wild)
                            \o (IF b[2] < 0 THEN NoPart(id, 2) ELSE Part(id, 2, b[2], IF k = 1 THEN p ELSE b[5], Wild, Wild))
                            \o (IF b[3] < 0 THEN NoPart(id, 3) ELSE Part(id, 3, b[3], p, Wild, Wild)))
\* [ address ]
Bracketed(N, c, u, lb, h, rb, p, e, f) == LET l == M(N, c, u, lb, p, e, f) x == IF l.ok THEN M(N, c, u, h, l.e, e, f) ELSE No r == IF x.ok THEN M(N, c, u, rb, x.e, e, f) ELSE No IN
    IF r.ok THEN YesV(r.e, View(h, l.e, x)) ELSE No
Host(N, c, u, lb, rb, h4, h6, dns, p, e, f, mail) ==
    LET a == IF mail THEN Bracketed(N, c, u, lb, h4, rb, p, e, f) ELSE LET x == M(N, c, u, h4, p, e, f) IN IF x.ok THEN YesV(x.e, View(h4, p, x)) ELSE No
        b == Bracketed(N, c, u, lb, h6, rb, p, e, f) d == M(N, c, u, dns, p, e, f) IN
    CASE a.ok -> YesV(a.e, a.v \o Not(h6) \o Not(dns))
      [] ~a.ok /\ b.ok -> YesV(b.e, b.v \o Not(h4) \o Not(dns))
      [] ~a.ok /\ ~b.ok /\ d.ok -> YesV(d.e, View(dns, p, d) \o Not(h4) \o Not(h6))
      [] OTHER -> No
\* <<_, http, ftp, mailto, file, colon, slash, user, password, at, [, ], ipv4, ipv6, dns, port, path>>
Url(N, c, u, nd, p, e, f) ==
    LET Scheme(id, n) == LET x == M(N, c, u, id, p, e, f) y == IF x.ok THEN M(N, c, u, nd[6], x.e, e, f) ELSE No
                             z == IF y.ok THEN M(N, c, u, nd[7], y.e, e, f) ELSE No w == IF z.ok THEN M(N, c, u, nd[7], z.e, e, f) ELSE No IN
                         IF n = 2 THEN [ok |-> w.ok, e |-> w.e, v |-> View(id, p, x)] ELSE [ok |-> y.ok, e |-> y.e, v |-> View(id, p, x)]
        k == CASE Scheme(nd[2], 2).ok -> 2 [] ~Scheme(nd[2], 2).ok /\ Scheme(nd[3], 2).ok -> 3 [] ~Scheme(nd[2], 2).ok /\ ~Scheme(nd[3], 2).ok /\ Scheme(nd[4], 0).ok -> 4
               [] ~Scheme(nd[2], 2).ok /\ ~Scheme(nd[3], 2).ok /\ ~Scheme(nd[4], 0).ok /\ Scheme(nd[5], 2).ok -> 5 [] OTHER -> 0
        s == IF k = 0 THEN [e |-> p, v |-> <<>>] ELSE Scheme(nd[k], IF k = 4 THEN 0 ELSE 2)
        v == s.v \o Nots(SelectSeq([i \in 1..4 |-> IF i + 1 = k THEN -1 ELSE nd[i + 1]], LAMBDA x : x >= 0))
        a == IF k \in {2, 3, 4} THEN M(N, c, u, nd[8], s.e, e, f) ELSE No
        co == IF a.ok /\ k # 4 THEN M(N, c, u, nd[6], a.e, e, f) ELSE No pw == IF co.ok THEN M(N, c, u, nd[9], co.e, e, f) ELSE No
        at2 == IF pw.ok THEN M(N, c, u, nd[10], pw.e, e, f) ELSE No at1 == IF a.ok THEN M(N, c, u, nd[10], a.e, e, f) ELSE No
        q == IF at2.ok THEN at2.e ELSE IF at1.ok THEN at1.e ELSE s.e
        uv == CASE at2.ok -> View(nd[8], s.e, a) \o View(nd[9], co.e, pw) [] ~at2.ok /\ at1.ok -> View(nd[8], s.e, a) \o Not(nd[9]) [] OTHER -> Not(nd[8]) \o Not(nd[9])
        h == Host(N, c, u, nd[11], nd[12], nd[13], nd[14], nd[15], q, e, f, k = 4)
        pc == IF h.ok /\ k # 4 THEN M(N, c, u, nd[6], h.e, e, f) ELSE No po == IF pc.ok THEN M(N, c, u, nd[16], pc.e, e, f) ELSE No
        r == IF po.ok THEN po.e ELSE h.e pa == M(N, c, u, nd[17], IF k = 5 THEN s.e ELSE r, e, f) IN
    CASE k = 5 -> YesV(IF pa.ok THEN pa.e ELSE s.e, v \o View(nd[17], s.e, pa) \o Nots(<<nd[8], nd[9], nd[13], nd[14], nd[15], nd[16]>>))
      [] k = 4 -> IF at1.ok /\ h.ok THEN YesV(h.e, v \o uv \o h.v \o Nots(<<nd[16], nd[17]>>)) ELSE No
      [] OTHER -> IF h.ok THEN YesV(IF pa.ok THEN pa.e ELSE r, v \o uv \o h.v \o (IF po.ok THEN View(nd[16], pc.e, po) ELSE Not(nd[16])) \o View(nd[17], r, pa)) ELSE No
Email(N, c, u, nd, p, e, f) == LET a == M(N, c, u, nd[2], p, e, f) t == IF a.ok THEN M(N, c, u, nd[3], a.e, e, f) ELSE No
        h == IF t.ok THEN Host(N, c, u, nd[4], nd[5], nd[6], nd[7], nd[8], t.e, e, f, TRUE) ELSE No IN
    IF h.ok THEN YesV(h.e, View(nd[2], p, a) \o h.v) ELSE No
RECURSIVE Again(_, _, _, _, _, _, _, _)
Again(N, c, u, id, hit, p, e, f) == LET r == M(N, c, u, id, p, e, f) IN IF r.ok /\ r.x = hit THEN Again(N, c, u, id, hit, r.e, e, f) ELSE p
\* <<_, emoticon, apex, eyes, nose, mouth>>
Emoticon(N, c, u, nd, p, e, f) ==
    LET w == Opt(N, c, u, nd[2], p, e, f) a == Opt(N, c, u, nd[3], p, e, f) q == IF a.ok THEN a.e ELSE p y == M(N, c, u, nd[4], q, e, f)
        n == IF y.ok THEN Opt(N, c, u, nd[5], y.e, e, f) ELSE No nm == IF n.ok THEN M(N, c, u, nd[6], n.e, e, f) ELSE No
        m == IF y.ok THEN M(N, c, u, nd[6], y.e, e, f) ELSE No
        Mouth(s, r) == LET z == Again(N, c, u, nd[6], r.x, r.e, e, f) IN YesV(z, Nones(<<nd[2]>>) \o Or(nd[3], p, a) \o View(nd[4], q, y) \o <<<<nd[6], 1, s, z, r.x, Wild>>>>) IN
    CASE w.ok -> YesV(w.e, View(nd[2], p, w) \o Nones(SubSeq(nd, 3, 6)))
      [] ~w.ok /\ nm.ok -> LET r == Mouth(n.e, nm) IN [r EXCEPT !.v = @ \o View(nd[5], y.e, n)]
      [] ~w.ok /\ ~nm.ok /\ m.ok -> LET r == Mouth(y.e, m) IN [r EXCEPT !.v = @ \o Nones(<<nd[5]>>)]
      [] OTHER -> No
\* <<_, mask, day, month, year, separator, space>>
ValidDay(d, m) == d # Wild /\ m \in 1..12 /\ d \in 1..(CASE m = 2 -> 29 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31)
Date(N, c, u, nd, p, e, f) ==
    LET sep == nd[6]
        Sp(q) == Spaces(N, c, u, nd[7], q, e, NoML(f))
        \* <field> . <field>
        Two(a, b) == LET x == M(N, c, u, a, p, e, f) q == Sp(x.e) s == IF x.ok THEN M(N, c, u, sep, q, e, f) ELSE No r == Sp(s.e) y == IF s.ok THEN M(N, c, u, b, r, e, f) ELSE No IN
                     [ok |-> y.ok, e |-> y.e, h |-> s.x, x |-> x.x, y |-> y.x, v |-> IF y.ok THEN View(a, p, x) \o View(b, r, y) ELSE <<>>]
        Dot(t) == LET q == Sp(t.e) s == IF t.ok THEN M(N, c, u, sep, q, e, f) ELSE No IN IF s.ok /\ s.x = t.h THEN s ELSE No
        \* <field> . <field> . <field>
        Three(a, b, d) == LET t == Two(a, b) s == IF t.ok THEN Dot(t) ELSE No r == Sp(s.e) z == IF s.ok THEN M(N, c, u, d, r, e, f) ELSE No IN
                     [ok |-> z.ok, e |-> z.e, x |-> t.x, y |-> t.y, z |-> z.x, v |-> IF z.ok THEN t.v \o View(d, r, z) ELSE <<>>]
        In(b) == (nd[2] \div b) % 2 = 1
        dd == nd[3] mm == nd[4] yy == nd[5]
        A == IF In(1) THEN Three(dd, mm, yy) ELSE [ok |-> FALSE]  B == IF In(2) THEN Three(mm, dd, yy) ELSE [ok |-> FALSE]  C == IF In(4) THEN Three(yy, mm, dd) ELSE [ok |-> FALSE]
        D == IF In(8) THEN Two(yy, mm) ELSE [ok |-> FALSE]  E == IF In(16) THEN Two(mm, yy) ELSE [ok |-> FALSE]  F == IF In(32) THEN Two(dd, mm) ELSE [ok |-> FALSE]  G == IF In(64) THEN Two(mm, dd) ELSE [ok |-> FALSE]
        R(t, x, w, k) == [YesX(x, k, Wild) EXCEPT !.v = t.v \o w]
        Trail(t) == LET s == Dot(t) IN IF s.ok THEN s.e ELSE t.e IN
    IF A.ok /\ ValidDay(A.x, A.y) THEN R(A, A.e, <<>>, 1)
    ELSE IF B.ok /\ ValidDay(B.y, B.x) THEN R(B, B.e, <<>>, 2)
    ELSE IF C.ok /\ ValidDay(C.z, C.y) THEN R(C, C.e, <<>>, 4)
    ELSE IF D.ok /\ ValidDay(1, D.y) THEN R(D, D.e, Nones(<<dd>>), 8)
    ELSE IF E.ok /\ ValidDay(1, E.x) THEN R(E, E.e, Nones(<<dd>>), 16)
    ELSE IF F.ok /\ ValidDay(F.x, F.y) THEN R(F, Trail(F), Nones(<<yy>>), 32)
    ELSE IF G.ok /\ ValidDay(G.y, G.x) THEN R(G, Trail(G), Nones(<<yy>>), 64)
    ELSE No
Below(x, n) == x # Wild /\ x < n
\* <<_, hour, minute, second, millisecond, separator, millisecond separator>>
Time(N, c, u, nd, p, e, f) ==
    LET h == M(N, c, u, nd[2], p, e, f) s == IF h.ok THEN M(N, c, u, nd[6], h.e, e, f) ELSE No m == IF s.ok THEN M(N, c, u, nd[3], s.e, e, f) ELSE No
        t == IF m.ok THEN M(N, c, u, nd[6], m.e, e, f) ELSE No k == IF t.ok /\ t.x = s.x THEN Opt(N, c, u, nd[4], t.e, e, f) ELSE No
        d == IF k.ok /\ Below(k.x, 60) THEN Opt(N, c, u, nd[7], k.e, e, f) ELSE No i == IF d.ok THEN Opt(N, c, u, nd[5], d.e, e, f) ELSE No
        hm == View(nd[2], p, h) \o View(nd[3], s.e, m) IN
    CASE ~(m.ok /\ Below(m.x, 60)) -> No
      [] m.ok /\ Below(m.x, 60) /\ k.ok /\ Below(k.x, 60) /\ i.ok /\ Below(i.x, 1000) -> YesV(i.e, hm \o View(nd[4], t.e, k) \o View(nd[5], d.e, i))
      [] m.ok /\ Below(m.x, 60) /\ k.ok /\ Below(k.x, 60) /\ ~(i.ok /\ Below(i.x, 1000)) -> YesV(k.e, hm \o View(nd[4], t.e, k) \o Nones(<<nd[5]>>))
      [] OTHER -> YesV(m.e, hm \o Nones(<<nd[4], nd[5]>>))
\* <<_, degree, its mark, minute, its mark, second, its mark, decimals>>
Angle(N, c, u, nd, p, e, f) ==
    LET d == M(N, c, u, nd[2], p, e, f) ds == IF d.ok THEN M(N, c, u, nd[3], d.e, e, f) ELSE No q == IF ds.ok THEN ds.e ELSE p
        m == M(N, c, u, nd[4], q, e, f) ms == IF m.ok /\ Below(m.x, 60) THEN M(N, c, u, nd[5], m.e, e, f) ELSE No r == IF ms.ok THEN ms.e ELSE q
        s == Opt(N, c, u, nd[6], r, e, f) sok == s.ok /\ Below(s.x, 60) ss == IF sok THEN Opt(N, c, u, nd[7], s.e, e, f) ELSE No
        t == IF ss.ok THEN ss.e ELSE IF sok THEN s.e ELSE r x == Opt(N, c, u, nd[8], t, e, f) IN
    IF ~ds.ok /\ ~ms.ok /\ ~sok THEN No
    ELSE YesV(IF x.ok THEN x.e ELSE t,
              (IF ds.ok THEN View(nd[2], p, d) \o View(nd[3], d.e, ds) ELSE Not(nd[2]) \o Not(nd[3]))
           \o (IF ms.ok THEN View(nd[4], q, m) \o View(nd[5], m.e, ms) ELSE Not(nd[4]) \o Not(nd[5]))
           \o (IF sok THEN View(nd[6], r, s) ELSE Nones(<<nd[6]>>)) \o (IF ss.ok THEN View(nd[7], s.e, ss) ELSE Nones(<<nd[7]>>)) \o Or(nd[8], t, x))
\* <<_, digit, plus, (, ), separator, space>>. z: the state: the value so far, the end of the number so far and its value
RECURSIVE Phone(_, _, _, _, _, _, _, _)
Phone(N, c, u, nd, p, e, f, z) ==
    LET T(r) == SubSeq(u, p + 1, r.e)
        d == M(N, c, u, nd[2], p, e, f)
        l == IF ~z.left /\ nd[5] >= 0 THEN Opt(N, c, u, nd[4], p, e, f) ELSE No
        r == IF z.in /\ nd[4] >= 0 THEN Opt(N, c, u, nd[5], p, e, f) ELSE No
        s == IF z.after = 1 /\ ~z.in THEN Opt(N, c, u, nd[6], p, e, f) ELSE No
        b == IF z.after > 0 THEN Opt(N, c, u, nd[7], p, e, NoML(f)) ELSE No
        v == z.v \o T(d) w == z.v \o T(r) IN
    IF ~Has(u, p, e) THEN z
    ELSE IF d.ok THEN Phone(N, c, u, nd, d.e, e, f, IF z.in THEN [z EXCEPT !.v = v, !.after = 1] ELSE [z EXCEPT !.v = v, !.after = 1, !.e = d.e, !.sv = v, !.has = TRUE])
    ELSE IF l.ok THEN Phone(N, c, u, nd, l.e, e, f, [z EXCEPT !.v = @ \o T(l), !.left = TRUE, !.hit = l.x, !.in = TRUE, !.after = 0])
    ELSE IF r.ok /\ r.x = z.hit THEN Phone(N, c, u, nd, r.e, e, f, [z EXCEPT !.v = w, !.in = FALSE, !.after = 2, !.e = r.e, !.sv = w])
    ELSE IF s.ok THEN Phone(N, c, u, nd, s.e, e, f, [z EXCEPT !.after = 0])
    ELSE IF b.ok THEN Phone(N, c, u, nd, b.e, e, f, [z EXCEPT !.after = 0])
    ELSE z
\* remainder of a code by 97: letters stand for 10 to 35
RECURSIVE Mod97(_, _)
Mod97(s, v) == IF s = <<>> THEN v ELSE Mod97(Tail(s), (IF IsDigit(Head(s)) THEN v * 10 + Head(s) - 48 ELSE v * 100 + Head(s) - 55) % 97)
\* the length of a country's IBAN (two letters; 0: no such country), and its check digits where there is but one possibility
IbanLength(a, b) ==
    LET In(s) == \E i \in 1..(Len(s) \div 2) : s[2 * i - 1] = a /\ s[2 * i] = b IN
    CASE In(<<78,79>>) -> 15
      [] In(<<66,69>>) -> 16
      [] In(<<68,75, 70,73, 70,79, 71,76, 78,76, 83,68>>) -> 18
      [] In(<<77,75, 83,73>>) -> 19
      [] In(<<65,84, 66,65, 69,69, 75,90, 76,84, 76,85, 88,75>>) -> 20
      [] In(<<67,72, 72,82, 76,73, 76,86>>) -> 21
      [] In(<<66,71, 66,72, 67,82, 68,69, 71,66, 71,69, 73,69, 77,69, 82,83, 86,65>>) -> 22
      [] In(<<65,69, 71,73, 73,76, 73,81, 84,76>>) -> 23
      [] In(<<65,68, 67,90, 69,83, 77,68, 80,75, 82,79, 83,65, 83,69, 83,75, 84,78, 86,71>>) -> 24
      [] In(<<65,79, 67,86, 71,87, 76,89, 77,90, 80,84, 83,84>>) -> 25
      [] In(<<68,90, 73,82, 73,83, 84,82>>) -> 26
      [] In(<<66,73, 67,70, 67,71, 67,77, 68,74, 70,82, 71,65, 71,81, 71,82, 73,84, 75,77, 77,67, 77,71, 77,82, 83,77, 84,68>>) -> 27
      [] In(<<65,76, 65,90, 66,70, 66,74, 66,89, 67,73, 67,89, 68,79, 71,84, 72,78, 72,85, 76,66, 77,65, 77,76, 78,69, 80,76, 83,78, 83,86, 84,71>>) -> 28
      [] In(<<66,82, 69,71, 80,83, 81,65, 85,65>>) -> 29
      [] In(<<74,79, 75,87, 77,85>>) -> 30
      [] In(<<77,84, 83,67>>) -> 31
      [] In(<<76,67>>) -> 32
      [] In(<<82,85>>) -> 33
      [] OTHER -> 0
IbanCheck(a, b) == CASE a = 66 /\ b = 65 -> <<51, 57>> [] a = 77 /\ b = 69 -> <<50, 53>> [] a = 77 /\ b = 75 -> <<48, 55>> [] a = 77 /\ b = 82 -> <<49, 51>> [] a = 80 /\ b = 84 -> <<53, 48>>
                     [] a = 82 /\ b = 83 -> <<51, 53>> [] a = 83 /\ b = 73 -> <<53, 54>> [] a = 84 /\ b = 76 -> <<51, 56>> [] a = 84 /\ b = 78 -> <<53, 57>> [] OTHER -> <<>>
Cap(x, f) == IF CI(f) THEN Upper(x) ELSE x
Code(x) == IsDigit(x) \/ IsUpper(x)
\* two letters, two digits
Headed(u, p, e, f) == p + 4 <= e /\ (\A i \in 1..4 : u[p + i] # 0) /\ IsUpper(Cap(u[p + 1], f)) /\ IsUpper(Cap(u[p + 2], f)) /\ IsDigit(u[p + 3]) /\ IsDigit(u[p + 4])
RECURSIVE Bban(_, _, _, _, _, _, _, _, _)
Bban(N, c, u, sp, p, e, f, n, w) == IF Len(w) = n THEN [ok |-> TRUE, e |-> p, w |-> w]
    ELSE IF ~Has(u, p, e) THEN [ok |-> FALSE]
    ELSE LET s == Opt(N, c, u, sp, p, e, f) x == Cap(At(u, p), f) IN
         IF s.ok /\ s.e > p THEN Bban(N, c, u, sp, s.e, e, f, n, w)
         ELSE IF Code(x) THEN Bban(N, c, u, sp, p + 1, e, f, n, Append(w, x)) ELSE [ok |-> FALSE]
Iban(N, c, u, nd, id, p, e, f) ==
    IF ~Headed(u, p, e, f) THEN No
    ELSE LET a == Cap(u[p + 1], f) b == Cap(u[p + 2], f) k == SubSeq(u, p + 3, p + 4) n == IbanLength(a, b) IN
         IF n = 0 \/ IbanCheck(a, b) \notin {<<>>, k} THEN No
         ELSE LET w == Bban(N, c, u, nd[2], p + 4, e, f, n - 4, <<>>) IN
              IF ~w.ok THEN No
              ELSE YesV(w.e, Part(id, 1, p, w.e, IF Mod97(w.w \o <<a, b>> \o k, 0) = 1 THEN 1 ELSE 0, Digest(<<a, b>> \o k \o w.w)))
\* groups of four, each after a space at most; whether a space at the very end belongs to it is left open
RECURSIVE Fours(_, _, _, _, _, _, _, _, _)
Fours(N, c, u, sp, p, e, f, w, j) ==
    LET s == IF j = 0 THEN Opt(N, c, u, sp, p, e, f) ELSE No q == IF s.ok THEN s.e ELSE p x == IF Has(u, q, e) THEN Cap(At(u, q), f) ELSE 0 IN
    IF ~Code(x) THEN [e |-> p, w |-> w, open |-> q # p]
    ELSE Fours(N, c, u, sp, q + 1, e, f, Append(w, x), (j + 1) % 4)
Creditor(N, c, u, nd, id, p, e, f) ==
    IF ~(Headed(u, p, e, f) /\ Cap(u[p + 1], f) = 82 /\ Cap(u[p + 2], f) = 70) THEN No
    ELSE LET k == SubSeq(u, p + 3, p + 4) r == Fours(N, c, u, nd[2], p + 4, e, f, <<>>, 0) w == [i \in 1..(21 - Len(r.w)) |-> 48] \o r.w IN
         IF r.w = <<>> \/ Len(r.w) > 21 THEN No
         ELSE YesV(IF r.open THEN Wild ELSE r.e, Part(id, 1, p, Wild, IF Mod97(r.w \o <<82, 70>> \o k, 0) = 1 THEN 1 ELSE 0, Digest(k \o w)))
\* SI references: the last digit of s controls the others
RECURSIVE Sum11(_, _)
Sum11(s, k) == IF s = <<>> THEN 0 ELSE k * (Last(s) - 48) + Sum11(SubSeq(s, 1, Len(s) - 1), k + 1)
Checked(s) == LET k == 11 - (Sum11(SubSeq(s, 1, Len(s) - 1), 2) % 11) IN Last(s) - 48 = IF k > 9 THEN 0 ELSE k
RECURSIVE DigitsAt(_, _, _)
DigitsAt(u, p, e) == IF Has(u, p, e) /\ IsDigit(At(u, p)) THEN <<At(u, p)>> \o DigitsAt(u, p + 1, e) ELSE <<>>
SiValid(m, P) ==
    LET n == Len(P) size == \A i \in 1..n : Len(P[i]) <= 12 total == (IF n > 0 THEN Len(P[1]) ELSE 0) + (IF n > 1 THEN Len(P[2]) ELSE 0) + (IF n > 2 THEN Len(P[3]) ELSE 0)
        fits == size /\ total <= 20
        \* the parts from i to j are controlled together
        K(i, j) == Checked(LET RECURSIVE C(_) C(k) == IF k > j THEN <<>> ELSE P[k] \o C(k + 1) IN C(i)) IN
    CASE m = 99 -> TRUE
      [] m = 0 -> n > 0 /\ fits
      [] m = 1 -> n > 0 /\ fits /\ K(1, n)
      [] m = 2 -> n = 3 /\ fits /\ K(2, 2) /\ K(3, 3)
      [] m = 3 -> n = 3 /\ fits /\ K(1, 1) /\ K(2, 2) /\ K(3, 3)
      [] m = 4 -> n = 3 /\ fits /\ K(1, 1) /\ K(3, 3)
      [] m \in {5, 55} -> n > 0 /\ fits /\ K(1, 1)
      [] m = 6 -> n > 1 /\ fits /\ K(2, n)
      [] m = 7 -> n > 1 /\ fits /\ K(2, 2)
      [] m = 8 -> n = 3 /\ fits /\ K(1, 2) /\ K(3, 3)
      [] m = 9 -> n > 0 /\ fits /\ K(1, IF n = 1 THEN 1 ELSE 2)
      [] m = 10 -> n > 1 /\ fits /\ K(1, 1) /\ K(2, n)
      [] m \in {11, 18, 19, 28, 38, 40, 41, 48, 49, 51, 58} -> n > 1 /\ fits /\ K(1, 1) /\ K(2, 2)
      [] m = 12 -> n = 1 /\ Len(P[1]) <= 13 /\ K(1, 1)
      [] m \in {21, 31} -> n = 2 /\ fits /\ K(1, 1)
      [] OTHER -> TRUE
Si(N, c, u, nd, id, p, e, f) ==
    IF ~(Headed(u, p, e, f) /\ Cap(u[p + 1], f) = 83 /\ Cap(u[p + 2], f) = 73) THEN No
    ELSE LET m == 10 * (u[p + 3] - 48) + u[p + 4] - 48 s == Opt(N, c, u, nd[2], p + 4, e, f) q == IF s.ok THEN s.e ELSE p + 4
             Dash(x) == Has(u, x, e) /\ At(u, x) = 45
             a == IF m = 99 THEN <<>> ELSE DigitsAt(u, q, e) ae == q + Len(a) b == IF a # <<>> /\ Dash(ae) THEN DigitsAt(u, ae + 1, e) ELSE <<>> be == ae + 1 + Len(b)
             d == IF b # <<>> /\ Dash(be) THEN DigitsAt(u, be + 1, e) ELSE <<>> de == be + 1 + Len(d)
             P == IF a = <<>> THEN <<>> ELSE IF b = <<>> THEN <<a>> ELSE IF d = <<>> THEN <<a, b>> ELSE <<a, b, d>> IN
         YesV(CASE P = <<>> -> p + 4 [] Len(P) = 1 -> ae [] Len(P) = 2 -> be [] OTHER -> de,
              (IF Len(P) > 0 THEN Part(id, 1, q, ae, Wild, Wild) ELSE NoPart(id, 1)) \o (IF Len(P) > 1 THEN Part(id, 2, ae + 1, be, Wild, Wild) ELSE NoPart(id, 2))
              \o (IF Len(P) > 2 THEN Part(id, 3, be + 1, de, Wild, Wild) ELSE NoPart(id, 3)) \o Part(id, 4, p, Wild, IF SiValid(m, P) THEN 1 ELSE 0, m))
\* elements with their numbers, then the sign of a charge
RECURSIVE Formula(_, _, _, _, _, _, _, _, _)
Formula(N, c, u, nd, s, p, e, f, z) ==
    LET x == M(N, c, u, nd[2], p, e, 2 * (f \div 2)) d == Spaces(N, c, u, nd[3], x.e, e, f) g == M(N, c, u, nd[4], p, e, f) IN
    IF x.ok THEN Formula(N, c, u, nd, s, d, e, f, IF d > x.e THEN 1 ELSE z)
    ELSE IF p = s THEN No ELSE IF g.ok THEN YesX(g.e, z, 1) ELSE YesX(p, z, 0)
M2(N, c, u, id, p, e, f) ==
    LET nd == N[id + 1] k == nd[1] IN
    CASE k = DNSCHAR -> One(c, u, p, e, 0, LAMBDA x : (Len(x) = 1 /\ x[1] = 45) \/ \A i \in 1..Len(x) : IsAlNum(x[i]))
      [] k = USERCHAR -> CharIn(c, u, p, e, UserChars)
      [] k = PASSCHAR -> CharIn(c, u, p, e, PassChars)
      [] k = PATHCHAR -> CharIn(c, u, p, e, PathChars)
      [] k = SCOPECHAR -> CharIn(c, u, p, e, {45, 95, 58})
      [] k = IPV6 -> LET r == IPv6(N, c, u, nd, p, e, f, <<>>, -1, -1) IN
                     IF ~r.ok THEN No
                     ELSE LET w == Groups8(r) t == Opt(N, c, u, nd[19], r.e, e, f) s == IF t.ok THEN Opt(N, c, u, nd[20], t.e, e, f) ELSE No IN
                          YesV(IF s.ok THEN s.e ELSE r.e, [i \in 1..8 |-> <<id + 1000 * i, 1, w[i][1], w[i][2], w[i][3], Wild>>] \o Or(nd[20], t.e, s))
      [] k = DNS -> LET g == Domain(N, c, u, nd, p, e, f, -1, 0) IN IF g < 0 THEN No ELSE Yes(g)
      [] k = URLPATH -> UrlPath(N, c, u, nd, id, p, e, f, <<p, -1, -1, -1, -1>>, 0)
      [] k = URL -> Url(N, c, u, nd, p, e, f)
      [] k = EMAIL -> Email(N, c, u, nd, p, e, f)
      [] k = EMOTICON -> Emoticon(N, c, u, nd, p, e, f)
      [] k = DATE -> Date(N, c, u, nd, p, e, f)
      [] k = TIME -> Time(N, c, u, nd, p, e, f)
      [] k = ANGLE -> Angle(N, c, u, nd, p, e, f)
      [] k = PHONE -> LET a == Opt(N, c, u, nd[3], p, e, f) q == IF a.ok THEN a.e ELSE p v == SubSeq(u, p + 1, q)
                          z == Phone(N, c, u, nd, q, e, f, [v |-> v, sv |-> v, e |-> p, has |-> FALSE, left |-> FALSE, hit |-> Wild, in |-> FALSE, after |-> 0]) IN
                      IF z.has THEN YesX(z.e, Len(z.sv), Digest(z.sv)) ELSE No
      [] k = IBAN -> Iban(N, c, u, nd, id, p, e, f)
      [] k = CREDITOR -> Creditor(N, c, u, nd, id, p, e, f)
      [] k = SIREF -> Si(N, c, u, nd, id, p, e, f)
      [] k = FORMULA -> Formula(N, c, u, nd, p, p, e, f, 0)
------------------------------------------------------------------------------
\* the observed views o: <<id, matched, start, end, x, y>>, flattened
Obs(o, id) == LET i == CHOOSE j \in 0..(Len(o) \div 6 - 1) : o[6 * j + 1] = id IN SubSeq(o, 6 * i + 1, 6 * i + 6)
Agrees(w, o) == LET b == Obs(o, w[1]) IN b[2] = w[2] /\ (w[2] = 1 => b[3] = w[3] /\ w[4] \in {Wild, b[4]} /\ w[5] \in {Wild, b[5]} /\ w[6] \in {Wild, b[6]})
\* a recognizer told to forget: it and the parts it looks into hold nothing, its own values are those of nothing
Kids(nd) == LET k == nd[1] q(i, j) == {nd[x] : x \in i..j} IN
    (CASE k \in {SEQ, BRANCH, PERM} -> {nd[x] : x \in 2..Len(nd)} [] k = FRACTION -> q(2, 4) [] k = SCORE -> q(2, 4) [] k = SIGNED -> q(2, 5) [] k = MIXED -> q(2, 5) \cup {nd[7]}
      [] k = SCI -> q(2, 11) [] k = MONEY -> q(2, 8) [] k = IPV6 -> {nd[20]} [] k = URL -> q(2, 5) \cup q(8, 9) \cup q(13, 17) [] k = EMAIL -> {nd[2]} \cup q(6, 8)
      [] k = EMOTICON -> q(2, 6) [] k = DATE -> q(3, 5) [] k = TIME -> q(2, 5) [] k = ANGLE -> q(2, 8) [] OTHER -> {}) \ {-1}
RECURSIVE Within(_, _)
Within(N, s) == IF s = {} THEN {} ELSE s \cup Within(N, UNION {Kids(N[i + 1]) : i \in s})
Bare(N, id) == LET k == N[id + 1][1] N6(p, x, y) == <<id + 1000 * p, 0, 0, 0, x, y>> IN
    {<<i, 0, 0, 0, Wild, Wild>> : i \in Within(N, Kids(N[id + 1]))} \cup
    {N6(0, CASE k \in {SET, BRANCH, STRS} -> Huge [] k \in {INT10, INT16, ROMAN, INT10TS, DATE, PHONE, FORMULA, IPV4} -> 0 [] k = SCI -> 2100000000 [] OTHER -> Wild,
           CASE k \in {INT10TS, FORMULA, IPV4} -> 0 [] k = PHONE -> 7 [] OTHER -> Wild)} \cup
    (CASE k = IPV6 -> {N6(p, 0, Wild) : p \in 1..8} [] k = URLPATH -> {N6(p, Wild, Wild) : p \in 1..3} [] k \in {IBAN, CREDITOR} -> {N6(1, 0, 7)}
      [] k = SIREF -> {N6(p, Wild, Wild) : p \in 1..3} \cup {N6(4, 0, Wild)} [] OTHER -> {})
AgreesBare(v, o) == LET J == {j \in 0..(Len(o) \div 6 - 1) : o[6 * j + 1] = v[1]} IN
    \A j \in J : o[6 * j + 2] = v[2] /\ v[5] \in {Wild, o[6 * j + 5]} /\ v[6] \in {Wild, o[6 * j + 6]}
Lim(u, e) == IF e < 0 THEN Len(u) ELSE Min2(e, Len(u))
RECURSIVE Find(_, _, _, _, _, _, _)
Find(N, c, u, id, p, e, f) == IF ~Has(u, p, e) THEN [ok |-> FALSE] ELSE LET r == M(N, c, u, id, p, e, f) IN IF r.ok THEN [ok |-> TRUE, p |-> p, r |-> r] ELSE Find(N, c, u, id, p + 1, e, f)
RECURSIVE Table(_)                 \* each node's length, then itself
Table(a) == IF a = <<>> THEN <<>> ELSE <<SubSeq(a, 2, 1 + a[1])>> \o Table(SubSeq(a, 2 + a[1], Len(a)))
\* state: c class, n nodes, u text. An event matched/found: <<id, start, end (-1: none), flags>> \o observed views; result: whether it matched
PStart(a) == {[c |-> a[1], n |-> <<>>, u |-> <<>>]}
PEval(st, op, a) ==
    CASE op = "node" -> {[r |-> <<>>, s |-> [st EXCEPT !.n = Append(@, a)]]}
      [] op = "nodes" -> {[r |-> <<>>, s |-> [st EXCEPT !.n = Table(a)]]}
      [] op = "text" -> {[r |-> <<>>, s |-> [st EXCEPT !.u = a]]}
      [] op = "matched" -> LET r == M(st.n, st.c, st.u, a[1], a[2], Lim(st.u, a[3]), a[4]) o == SubSeq(a, 5, Len(a)) v == View(a[1], a[2], r) IN
                           IF \A i \in 1..Len(v) : Agrees(v[i], o) THEN {[r |-> <<IF r.ok THEN 1 ELSE 0>>, s |-> st]} ELSE {}
      [] op = "found" -> LET q == Find(st.n, st.c, st.u, a[1], a[2], Lim(st.u, a[3]), a[4]) o == SubSeq(a, 5, Len(a)) IN
                         IF ~q.ok THEN {[r |-> <<0>>, s |-> st]}
                         ELSE LET v == View(a[1], q.p, q.r) IN IF \A i \in 1..Len(v) : Agrees(v[i], o) THEN {[r |-> <<1>>, s |-> st]} ELSE {}
      [] op = "dropped" -> IF \A v \in Bare(st.n, a[1]) : AgreesBare(v, Tail(a)) THEN {[r |-> <<>>, s |-> st]} ELSE {}
      [] OTHER -> {[r |-> <<>>, s |-> st]}     \* drop, and (when generating) match, search
=============================================================================
