----------------------------- MODULE G_DiagFile -----------------------------
EXTENDS DiagFile
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<n, k>> : n \in {0, 1, 2, 3}, k \in {0, 3}}
Calls(s) == {<<"read", <<n>>>> : n \in {0, 1, 2, 4}} \cup {<<"write", <<n, 7>>>> : n \in {0, 1, 3}} \cup {<<"seek", <<n, 0>>>> : n \in {-1, 0, 1, 5}}
    \cup {<<"seek", <<-1, 1>>>>, <<"seek", <<1, 2>>>>, <<"truncate", <<>>>>, <<"lock", <<0, 1>>>>, <<"unlock", <<0, 1>>>>, <<"flush", <<>>>>, <<"tell", <<>>>>}
INSTANCE GenBase
Inv == st.n \in 0..3
=============================================================================
