------------------------------ MODULE G_Owned ------------------------------
EXTENDS Owned
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<0>>, <<1>>, <<2>>}
Calls(s) == LET On == {i \in 1..3 : s.o[i].on}  Free == (1..3) \ On IN
    {<<"open", <<i, 10 + s.next>>>> : i \in Free} \cup {<<"none", <<i>>>> : i \in Free} \cup {<<"copyc", <<i, j, f>>>> : i \in Free, j \in On, f \in {0, 1}}
    \cup {<<"copya", <<i, j, f>>>> : i \in On, j \in On, f \in {0, 1}} \cup {<<"movec", <<i, j>>>> : i \in Free, j \in On} \cup {<<"movea", <<i, j>>>> : i \in On, j \in On}
    \cup {<<c, <<i>>>> : c \in {"close", "del", "test"}, i \in On}
INSTANCE GenBase WITH Start <- OStart, Eval <- OEval
\* every handle has one owner
Inv == \A i \in 1..3, j \in 1..3 : i # j /\ st.o[i].h # 0 => st.o[i].h # st.o[j].h
=============================================================================
