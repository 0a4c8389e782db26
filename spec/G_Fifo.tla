------------------------------- MODULE G_Fifo -------------------------------
EXTENDS Fifo
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<>>}
Calls(s) == {<<"read", <<n>>>> : n \in {0, 1, 2, 3, 5}} \cup {<<"write", <<n>>>> : n \in {0, 1, 2, 3}} \cup {<<"close", <<>>>>, <<"read_array", <<2, 2>>>>}
INSTANCE GenBase
Inv == st.out <= st.in
=============================================================================
