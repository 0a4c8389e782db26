------------------------------- MODULE G_Ids -------------------------------
(* Every language, texts of UUIDs with each place of the form disturbed.     *)
EXTENDS Ids
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<>>}
Uuids == {[i \in 1..16 |-> 0], [i \in 1..16 |-> 255], [i \in 1..16 |-> 17 * (i - 1)], [i \in 1..16 |-> (i * 37 + 3) % 256]}
Form == UText([i \in 1..16 |-> (i * 37 + 3) % 256])
Without(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
With(t, i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))
Texts == {Form} \cup {SubSeq(Form, 1, i) : i \in 0..37} \cup {Without(Form, i) : i \in 1..38} \cup {With(Form, i, c) : i \in 1..39, c \in {0, 32, 10, 45, 48, 97, 103, 123, 125}}
    \cup {[Form EXCEPT ![i] = c] : i \in 1..38, c \in {0, 32, 45, 71, 102, 123, 125}}
\* the first number that doesn't fit each of the groups, and its neighbours
Zero == UText([i \in 1..16 |-> 0])
AllOnes == UText([i \in 1..16 |-> 255])
Over == UNION {{With(Zero, i, 49), With(SubSeq(Zero, 1, i - 1) \o <<49>> \o SubSeq(Zero, i, 38), i, 48), [With(Zero, i, 49) EXCEPT ![e] = 49], With(AllOnes, i, 49), With(AllOnes, i, 48)} : <<i, e>> \in {<<2, 10>>, <<11, 15>>, <<16, 20>>, <<21, 25>>, <<26, 38>>}}
Puncts == {33, 45, 47, 58, 64, 91, 95, 96, 123, 126}
Upper(t) == [i \in 1..Len(t) |-> IF t[i] >= 97 /\ t[i] <= 122 THEN t[i] - 32 ELSE t[i]]
Calls(s) == {<<"utext", <<w>> \o b>> : w \in {0, 1}, b \in Uuids} \cup {<<"uparse", <<w, Len(t)>> \o t>> : w \in {0, 5}, t \in Texts \cup Over}
    \cup UNION {{<<"tag", <<x, 0>>>>} \cup {<<"lang", [i \in 1..Len(Tag[x]) |-> IF Tag[x][i] = 45 THEN c ELSE Tag[x][i]]>> : c \in Puncts} \cup { <<"lang", Tag[x]>>, <<"lang", Upper(Tag[x])>>, <<"lang", NormTag(Tag[x])>>, <<"lang", Tag[x] \o <<45>>>>, <<"lang", SubSeq(Tag[x], 1, Len(Tag[x]) - 1)>>,
                  <<"parts", <<x>>>>} : x \in Known}
\* the texts only; the driver adds what came out of them
GEval(s, op, a) == IF op = "uparse" THEN {[r |-> <<>>, s |-> s]} ELSE EvalI(s, op, a)
INSTANCE GenBase WITH Start <- StartI, Eval <- GEval
\* text of a UUID gives the UUID back; every language's tag leads to a language with that tag
Inv == /\ \A b \in Uuids : UForm(UText(b)).k = 0 /\ UBytes(UForm(UText(b)).d) = b
       /\ \A x \in Known : \A y \in Lang(Tag[x]) : Tag[y] = Tag[x]
=============================================================================
