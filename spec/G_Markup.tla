------------------------------ MODULE G_Markup ------------------------------
(* Each recognizer with all texts of the pieces of its format, and what the  *)
(* formats promise however they are recognized.                              *)
EXTENDS Markup
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<0>>, <<1>>}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
UpTo(P, n) == {Cat(w) : w \in UNION {[1..i -> P] : i \in 0..n}}
C1(S) == {<<x>> : x \in S}
RECURSIVE Each(_)
Each(s) == IF s = <<>> THEN {<<>>} ELSE {x \o y : x \in Head(s), y \in Each(Tail(s))}
\* the pieces of each format, and how many of them fewer or more than Most
P == 1 :> <<C1({13, 10, 32}), 0>> @@ 2 :> <<C1({13, 10, 32}), 0>> @@ 3 :> <<C1({13, 10, 32, 31, 128}), -2>> @@ 4 :> <<C1({97, 200, 127, 32}), -1>>
  @@ 5 :> <<C1({34, 92, 97, 10, 32}), 1>> @@ 6 :> <<C1({34, 92, 97, 59}), 0>> @@ 7 :> <<{<<97>>, <<61>>, <<32>>, <<34>>}, 1>> @@ 8 :> <<C1({42, 47}), 0>>
  @@ 9 :> <<{<<97>>, <<47>>, <<32>>, <<13, 10>>}, 0>> @@ 10 :> <<{<<97>>, <<47>>, <<59>>, <<32>>, <<98, 61, 99>>, <<61>>}, 1>> @@ 11 :> <<C1({97, 58, 47}), 0>> @@ 12 :> <<{<<48>>, <<54, 53, 53, 51>>, <<53>>, <<54>>, <<120>>}, -1>>
  @@ 13 :> <<C1({97, 63, 47, 32}), -1>> @@ 14 :> <<C1({97, 63, 47, 32}), 0>> @@ 15 :> <<C1({97, 61, 38, 32}), 0>> @@ 16 :> <<{<<104, 116, 116, 112, 58, 47, 47>>, <<97>>, <<58>>, <<56>>, <<47>>, <<63>>, <<38>>, <<61>>}, 0>>
  @@ 17 :> <<C1({97, 45, 49}), 0>> @@ 18 :> <<C1({48, 49, 46}), 0>> @@ 19 :> <<C1({42, 97}), -3>> @@ 20 :> <<{<<42>>, <<97>>, <<59>>, <<32>>, <<113, 61>>, <<46, 53>>}, 0>> @@ 21 :> <<{<<42>>, <<47>>, <<97>>, <<59, 113>>, <<61>>, <<48, 46, 53>>}, 0>>
  @@ 22 :> <<{<<36>>, <<97>>, <<61>>, <<32>>}, 0>> @@ 23 :> <<{<<36, 97, 61, 98>>, <<97, 61, 34, 34>>, <<61>>, <<59>>, <<32>>}, 0>> @@ 24 :> <<C1({97, 47, 32}), 0>> @@ 25 :> <<C1({72, 47, 49, 46, 32}), 1>>
  @@ 26 :> <<{<<71>>, <<32>>, <<47, 97>>, <<32, 72, 47, 49, 46, 49, 32>>, <<13, 10>>, <<63, 97>>}, 0>> @@ 27 :> <<{<<97>>, <<58>>, <<32>>, <<13, 10>>}, 1>>
  @@ 30 :> <<{<<34>>, <<92>>, <<97>>, <<92, 110>>, <<92, 117, 48, 49, 101, 70>>, <<92, 117, 48, 49>>}, 0>> @@ 31 :> <<C1({47, 42, 97}), 1>> @@ 32 :> <<C1({60, 33, 45}), 0>> @@ 33 :> <<C1({45, 62}), 0>>
  @@ 34 :> <<C1({34, 39, 92, 97}), 1>> @@ 35 :> <<{<<117, 114, 76, 40>>, <<34>>, <<41>>, <<32>>, <<97>>, <<92>>}, 0>> @@ 36 :> <<{<<64, 105, 109, 112, 111, 82, 116>>, <<34>>, <<39>>, <<32>>, <<97>>, <<92>>}, 0>>
  @@ 37 :> <<{<<97>>, <<47>>, <<59>>, <<32>>, <<99, 104, 97, 114, 115, 101, 84, 61>>, <<34>>}, 0>> @@ 40 :> <<C1({97, 47, 62, 61}), 0>> @@ 41 :> <<C1({34, 39, 47, 62, 97}), 0>>
  @@ 42 :> <<{<<60>>, <<47>>, <<62>>, <<97>>, <<61>>, <<34>>, <<32>>}, 0>> @@ 43 :> <<C1({60, 33, 91, 32, 97}), 1>> @@ 44 :> <<C1({93, 62}), 0>>
\* these start the right way
Heads == 5 :> {<<34>>} @@ 26 :> {<<71, 32, 47>>} @@ 27 :> {<<97>>, <<>>} @@ 30 :> {<<34>>} @@ 35 :> {<<117, 114, 108, 40>>} @@ 36 :> {<<64, 105, 109, 112, 111, 114, 116>>} @@ 37 :> {<<97, 47, 98>>, <<>>}
  @@ 42 :> {<<60, 97>>, <<60, 47, 97>>, <<60, 33>>, <<60, 33, 45, 45>>, <<60, 63>>, <<60>>, <<>>} @@ 43 :> {<<60, 33, 91>>} @@ 16 :> {<<47>>, <<104, 116, 116, 112, 58, 47, 47, 97>>} @@ 10 :> {<<97, 47, 97>>} @@ 23 :> {<<97, 61, 97>>}
More(k, t) == IF k = 42 /\ Has(t, 1, <<60, 33>>) THEN {<<45, 45>>, <<33>>, <<62>>, <<97>>} ELSE IF k = 42 /\ Has(t, 1, <<60, 63>>) THEN {<<63>>, <<62>>, <<97>>} ELSE P[k][1]
Least(k) == IF k \in {2, 3, 5, 7, 10, 16, 20, 21, 23, 26, 30, 35, 36, 37, 42, 43} THEN 1 ELSE 0
Texts(k) == UNION {{h \o x : x \in UpTo(More(k, h), Max2(1, Most + P[k][2] - Least(k)))} : h \in IF k \in DOMAIN Heads THEN Heads[k] ELSE {<<>>}}
Lists(k) == Each(<<{<<>>, <<44>>}, CASE k = 20 -> {<<97>>, <<42, 59, 113, 61, 46, 53>>} [] k = 21 -> {<<97, 47, 98, 59, 113, 61, 48>>, <<42, 47, 42>>} [] OTHER -> {<<101, 110>>, <<101, 45, 110, 59, 113, 61, 49>>},
                   {<<44>>, <<44, 32, 44>>, <<>>}, {<<97, 47, 98, 59, 113, 61, 46, 55>>, <<97, 59, 113, 61, 50>>, <<42>>}, {<<>>, <<44>>, <<44, 97, 47, 97>>}>>)
Calls(s) ==
    (IF s[1] = 0 THEN {<<"collect", <<k, 0, Len(t)>> \o t>> : k \in {17}, t \in Lists(17)} \cup {<<"collect", <<k, 0, Len(t)>> \o t>> : k \in {20}, t \in Lists(20)} \cup {<<"collect", <<k, 0, Len(t)>> \o t>> : k \in {21}, t \in Lists(21)} ELSE {})
    \cup UNION {{<<"match", <<k, 0, Len(t)>> \o t>> : t \in Texts(k)} : k \in {k \in DOMAIN P : s[1] = 0 \/ k >= 30}}
INSTANCE GenBase WITH Start <- MStart, Eval <- MEval
------------------------------------------------------------------------------
E_(x) == IF x = <<>> THEN 0 ELSE x[1]
In(p, i, j) == p = None \/ (i <= p[1] /\ p[1] <= p[2] /\ p[2] <= j)
\* recognized the same whatever follows (a quote that follows may close one left open in a tag)
Closed(k, w) == CASE k = 5 -> Quoted(w, 1) [] k = 30 -> IF C(w, 1) = 34 THEN Json(w, 2, FALSE, <<>>) ELSE <<>> [] k = 31 -> Comment(w, 1) [] k = 34 -> CssString(w, 1) [] k = 35 -> CssUri(w, 1) [] k = 36 -> CssImport(w, 1) [] k = 42 -> Tag(w, 1) [] k = 43 -> CondStart(w, 1) [] OTHER -> <<>>
Afterwards == \A k \in {5, 30, 31, 34, 35, 36, 42, 43} : \A t \in Texts(k) : LET x == Closed(k, t) IN
    x # <<>> => /\ x[1] <= Len(t) + 1 /\ (x[1] <= Len(t) => Closed(k, SubSeq(t, 1, x[1] - 1)) = x) /\ \A y \in {34, 97, 62, 92, 45} : (k = 42 /\ y = 34) \/ Closed(k, Append(t, y)) = x
\* a tag ends at an angle bracket, its parts are in it in order
Tags == \A t \in Texts(42) : LET x == Tag(t, 1) IN
    x # <<>> => /\ t[x[1] - 1] = 62 /\ In(x[3], 1, x[1] - 1) /\ \A i \in 1..Len(x[4]) : /\ In(x[4][i][1], x[3][2], x[1] - 1) /\ In(x[4][i][2], x[4][i][1][2] + 1, x[1] - 1)
                                                                                   /\ (i = 1 \/ x[4][i - 1][1][2] <= x[4][i][1][1])
\* what was escaped is what comes out, whichever escapes are used
Spell(c, f) == IF c \in {34, 92} THEN (IF f THEN <<92, c>> ELSE <<92, 117, 48, 48>> \o (IF c = 34 THEN <<50, 50>> ELSE <<53, 99>>)) ELSE IF c = 10 THEN <<92, 110>> ELSE IF f THEN <<c>> ELSE <<92, 117, 48, 48, 54, 49>>
Spellings == \A n \in 0..3 : \A v \in [1..n -> {34, 92, 10, 97}], f \in [1..n -> BOOLEAN] :
    LET w == <<34>> \o Cat([i \in 1..n |-> Spell(v[i], f[i])]) \o <<34>> IN Json(w, 2, TRUE, <<>>) = <<Len(w) + 1, v \o <<>>>> /\ Json(w, 2, FALSE, <<>>) = <<Len(w) + 1, v \o <<>>>>
\* the most wanted first; nothing lost; each element ends where the next may start
Order == \A k \in {17, 20, 21} : \A t \in Lists(k) : LET e == Elements(t, 1, k) s == Sorted(e) IN
    /\ Len(s) = Len(e) /\ {s[i] : i \in 1..Len(s)} = {e[i] : i \in 1..Len(e)} /\ \A i \in 2..Len(s) : s[i - 1][3] > s[i][3] \/ (s[i - 1][3] = s[i][3] /\ s[i - 1][1] < s[i][1])
    /\ \A i \in 2..Len(e) : e[i - 1][2] <= e[i][1]
\* an absolute address has the path and parameters it has without the server
Addresses == \A t \in Texts(16) : LET x == Url(t, 1) y == IF x = <<>> THEN <<>> ELSE Url(Drop(t, x[5][1] - 1), 1) IN
    x # <<>> => y # <<>> /\ y[1] = x[1] - x[5][1] + 1 /\ Len(y[6]) = Len(x[6]) /\ Len(y[7]) = Len(x[7]) /\ x[4] <= 65535 /\ (x[2] # None => x[2][1] = 8 /\ x[2][2] > 8)
Inv == Len(hist) = 1 /\ st[1] = 0 => Afterwards /\ Tags /\ Spellings /\ Order /\ Addresses
=============================================================================
