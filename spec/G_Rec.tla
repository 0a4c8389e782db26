------------------------------- MODULE G_Rec -------------------------------
EXTENDS Rec
CONSTANTS Depth, Recent
VARIABLES st, hist
File == <<1, 0, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 7, 8, 3, 0, 0, 0, 9>>
Starts == {<<1, 0>>, <<2, 0>>, <<1, 0>> \o File, <<1, 1>> \o File, <<1, 2>>}
Calls(s) == {<<"seek", <<0>>>>} \cup IF s.lost THEN {} ELSE {<<"put", <<2, 9>>>>, <<"put", <<1>>>>, <<"ignore", <<>>>>, <<"dump", <<>>>>}
    \cup (IF s.iface = 1 THEN {} ELSE {<<"open", <<1>>>>, <<"bytes", <<5>>>>, <<"bytes", <<5, 6>>>>})
    \cup (IF s.stk # <<>> /\ s.p >= s.stk[Len(s.stk)] + Head0(s) THEN {<<"close", <<>>>>} ELSE {})
    \cup (IF s.iface = 1 THEN {} ELSE {<<"find", <<2, -1>>>>, <<"find", <<2, 4>>>>, <<"id", <<-1>>>>})
    \cup {<<"get", <<n>>>> : n \in {0, 1, 4}}
\* the many outcomes of a read of what is not there lead to the same state
GEval(s, op, a) == LET o == Eval(s, op, a) IN IF Cardinality(o) > 2 THEN {CHOOSE x \in o : TRUE} ELSE o
INSTANCE GenBase WITH Eval <- GEval
Inv == st.p >= 0
=============================================================================
