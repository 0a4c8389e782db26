------------------------------ MODULE G_Buffer ------------------------------
EXTENDS Buffer
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<rc, wc, t, 1, ch, wl, 1, 0>> : rc \in {0, 1, 3}, wc \in {0, 2, 3}, t \in {0, 5}, ch \in {0, 2}, wl \in {-1, 4}}
Calls(s) == {<<"read", <<n>>>> : n \in {0, 1, 2, 4}} \cup {<<"write", <<n>>>> : n \in {0, 1, 2, 4}} \cup {<<"flush", <<>>>>, <<"close", <<>>>>}
\* The model delivers when it must, or just anything
GEval(s, op, a) ==
    IF op \in {"write", "flush", "close"}
    THEN UNION {Eval([s EXCEPT !.del = d, !.no = w, !.fl = 1, !.cl = 1], op, a) : d \in s.del..(s.acc + IF op = "write" THEN a[1] ELSE 0), w \in {s.wlimit >= 0, FALSE}}
    ELSE Eval(s, op, a)
INSTANCE GenBase WITH Eval <- GEval
Inv == st.del <= st.acc /\ st.acc - st.del <= st.wcap /\ st.rpos <= st.total
=============================================================================
