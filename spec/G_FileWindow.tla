---------------------------- MODULE G_FileWindow ----------------------------
EXTENDS FileWindow
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<n, p, b, len>> : n \in {0, 3, 6}, p \in {0, 2, 5}, b \in {0, 2}, len \in {0, 1, 3}}
Calls(s) == {<<"read", <<n>>>> : n \in {0, 1, 2, 4}} \cup {<<"write", <<n, 5>>>> : n \in {0, 1, 2, 4}}
    \cup {<<"seek", <<n, 0>>>> : n \in {-1, 0, 1, 4}} \cup {<<"seek", <<n, 1>>>> : n \in {-2, 1}} \cup {<<"seek", <<n, 2>>>> : n \in {-4, -1, 1}}
    \cup {<<"skip", <<1, OK>>>>, <<"skip", <<2, FAIL>>>>, <<"seekfail", <<1, 0, FAIL>>>>, <<"readcut", <<2, 1, FAIL>>>>, <<"writecut", <<3, 1, FAIL>>>>, <<"truncate", <<>>>>, <<"lock", <<1, 9>>>>, <<"unlock", <<0, 1>>>>, <<"lock", <<3, 1>>>>, <<"close", <<FAIL>>>>, <<"flush", <<FAIL>>>>}
INSTANCE GenBase
\* nothing outside the window ever changes
Inv == LET n == hist[1].a[1] IN
       /\ Len(st.d) <= Max2(n, st.e) /\ Len(st.d) >= n
       /\ \A i \in 1..n : i <= st.b \/ i > st.e => st.d[i] = Pat(3, i - 1)
       /\ st.e = hist[1].a[3] + hist[1].a[4]
=============================================================================
