------------------------------- MODULE G_Html -------------------------------
(* Documents of all sequences of a few pieces, and what is promised for any. *)
EXTENDS Html
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<0>>, <<1>>}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
UpTo(P, n) == {Cat(w) : w \in UNION {[1..i -> P] : i \in 0..n}}
Sp_(n) == Spelled[CHOOSE i \in 1..Len(Names) : Names[i] = n]
S_(n) == <<60>> \o Sp_(n) \o <<62>>
E_(n) == <<60, 47>> \o Sp_(n) \o <<62>>
Cond(w) == <<60, 33, 91>> \o w \o <<91>>
IGN == Cond(IGNORE_) CDA == Cond(CDATA_) RCD == Cond(RCDATA_) INC == Cond(<<73>>) FIN == <<93, 93, 62>>
Alt == <<32, 97, 108, 116, 61, 34, 38, 35, 51, 57, 59, 34>>
Src == <<32, 115, 114, 99, 61, 39, 38, 35, 51, 57, 59, 39>>
\* pieces in groups; documents are made of those of one group
Pieces == <<
    {S_("p"), E_("p"), S_("b"), E_("b"), S_("br"), <<97>>, S_("div"), E_("div")},
    {S_("ul"), E_("ul"), S_("li"), E_("li"), <<32>>, S_("p")},
    {S_("table"), E_("table"), S_("tr"), S_("td"), E_("td"), S_("a"), E_("a")},
    {<<97>>, IGN, CDA, INC, FIN, S_("p"), E_("p")},
    {<<38, 97, 109, 112, 59>>, RCD, FIN, Cond(<<37, 97, 59>>), <<60, 33, 69, 78, 84, 73, 84, 89, 32, 37, 32, 97, 32, 34>> \o IGNORE_ \o <<34, 62>>, <<60, 33, 69, 78, 84, 73, 84, 89, 32, 37, 32, 97, 32, 39>> \o CDATA_ \o <<39, 62>>},
    {S_("style"), E_("style"), <<117, 114, 108, 40, 97, 41>>, <<47, 42>>, <<42, 47>>, <<60, 33, 45, 45>>, <<45, 45, 62>>, S_("p")},
    {S_("code"), E_("code"), S_("kbd"), E_("kbd"), <<60, 105, 109, 103>> \o Alt \o Src \o <<62>>, S_("p"), <<38, 108, 116, 59>>},
    {S_("html"), S_("head"), S_("body"), S_("title"), E_("title"), E_("html"), S_("frameset"), <<60, 120, 62>>, <<60, 47, 120, 62>>} >>
Texts(n) == UNION {UpTo(Pieces[i], n) : i \in 1..Len(Pieces)}
\* the document does not remember anything when assigned to: all are made from the new one
Calls(s) == {<<"assign", t>> : t \in Texts(Most)}
INSTANCE GenBase WITH Start <- HStart, Eval <- HEval
------------------------------------------------------------------------------
Elements_ == {ELEMENT, STARTTAG}
Ordered(x) == \A i \in 1..Len(x.q) : LET s == x.q[i] IN s.a < s.b /\ s.b <= Len(x.u) + 1 /\ (i > 1 => x.q[i - 1].b <= s.a)
\* everything is in a sequence, when there are no conditional sections
Whole(x) == (\A i \in 1..Len(x.u) : CondStart(x.u, i) = <<>>) =>
    IF x.q = <<>> THEN x.u = <<>> ELSE x.q[1].a = 1 /\ x.q[Len(x.q)].b = Len(x.u) + 1 /\ \A i \in 2..Len(x.q) : x.q[i - 1].b = x.q[i].a
\* an element that is not ended itself ends with its parent
RECURSIVE End_Of(_, _)
End_Of(x, i) == IF i = 0 THEN Len(x.q) + 1 ELSE IF x.q[i].e = 0 THEN End_Of(x, x.q[i].pa) ELSE x.q[i].e
Paired(x) == \A i \in 1..Len(x.q) : LET s == x.q[i] IN
    /\ s.ty = ENDTAG /\ s.e # 0 => s.e < i /\ x.q[s.e].ty = STARTTAG /\ x.q[s.e].e = i /\ x.q[s.e].c = s.c /\ x.q[s.e].pa = s.pa
    /\ s.ty = STARTTAG /\ s.c \in Immediate => s.e = i
    /\ s.ty = STARTTAG /\ s.e # 0 => s.e >= i
Nested(x) == \A i \in 1..Len(x.q) : LET s == x.q[i] p == s.pa IN
    /\ p # 0 => p < i /\ x.q[p].ty = STARTTAG /\ i <= End_Of(x, p) /\ x.q[p].c \notin Immediate
    /\ p # 0 /\ s.ty = STARTTAG => End_Of(x, i) <= End_Of(x, p)
    /\ p # 0 /\ s.ty \in Elements_ => MayContain(x.q[p].c, s.c)
    \* the parent is the innermost element that is open there
    /\ \A j \in 1..i - 1 : x.q[j].ty = STARTTAG /\ End_Of(x, j) > i => j <= p \/ (s.ty = ENDTAG /\ s.e # 0)
\* the source is one of the ways to rebuild it, when what has to be escaped in texts is
Rebuilt(x) == (\A i \in 1..Len(x.u) : CondStart(x.u, i) = <<>>) /\ (\A i \in 1..Len(x.q) : x.q[i].ty = TEXT => {60, 62} \cap {x.u[j] : j \in x.q[i].a..x.q[i].b - 1} = {}) => \A void \in BOOLEAN : SpeltAll(x.u, 1, Linked(Tree(x, void)), 1)
\* in pieces, it ends up the same (if no tag is cut)
Cut(x) == \A i \in 1..Len(x.q) : LET s == x.q[i] y == Finished(Appended(Appended(New(x.t), SubSeq(x.u, 1, s.b - 1)), SubSeq(x.u, s.b, Len(x.u)))) IN
    s.ty # TEXT => y.q = x.q
Inv == Len(hist) = 2 /\ st.mode = 1 /\ st.t = 0 => Ordered(st) /\ Whole(st) /\ Paired(st) /\ Nested(st) /\ Rebuilt(st) /\ Cut(st)
=============================================================================
