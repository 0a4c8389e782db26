------------------------------ MODULE G_Queue ------------------------------
EXTENDS Queue
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<>>}
Next1(s, i) == 1 + ((Len(s[i].d) + i) % 3)
Calls(s) == {<<"new", <<1, c>>>> : c \in 0..3}
    \cup (IF ~s[1].on THEN {} ELSE
        {<<"popb", <<1>>>>, <<"popf", <<1>>>>, <<"clear", <<1>>>>}
        \cup (IF s[1].moved THEN {} ELSE {<<o, <<1, Next1(s, 1), 0>>>> : o \in {"pb", "pf"}} \cup {<<"pf", <<1, 9, 1>>>>, <<"pb", <<1, 9, 1>>>>})
        \cup {<<o, <<2, 1, 0>>>> : o \in {"copyc", "movec", "copya", "movea"}} \cup {<<"copya", <<2, 1, 2>>>>})
    \cup (IF ~s[2].on THEN {} ELSE {<<"popf", <<2>>>>, <<"copya", <<1, 2, 0>>>>, <<"movea", <<1, 2, 0>>>>, <<"copya", <<2, 2, 0>>>>, <<"movea", <<2, 2, 0>>>>}
        \cup IF s[2].moved THEN {} ELSE {<<"pbm", <<2, 7, 0>>>>, <<"pfm", <<2, 8, 0>>>>})
INSTANCE GenBase
\* never more than fits; what a queue does not hold was pushed elsewhere
Inv == \A i \in 1..3 : Len(st[i].d) <= st[i].cap /\ (~st[i].on => st[i].d = <<>>)
=============================================================================
