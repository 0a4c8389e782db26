------------------------------ MODULE G_Window ------------------------------
EXTENDS Window
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<k, ro, rl, wo, wl, 5, 1, ch, dl, 2, 0>> : k \in {1}, ro \in {0, 2, 6}, rl \in {-1, 0, 2, 6}, wo \in {0, 2}, wl \in {-1, 0, 3}, ch \in {0, 2}, dl \in {-1, 2}}
          \cup {<<k, 0, rl, 0, wl, 5, 2, ch, dl, 1, 0>> : k \in {0}, rl \in {-1, 0, 2, 6}, wl \in {-1, 0, 3}, ch \in {0, 2}, dl \in {-1, 2}}
Calls(s) == {<<"read", <<n>>>> : n \in {0, 1, 3, 7}} \cup {<<"write", <<n>>>> : n \in {0, 1, 3, 4}} \cup {<<"skip", <<n>>>> : n \in {1, 3}} \cup {<<"flush", <<>>>>}
INSTANCE GenBase
Inv == Sane(st)
=============================================================================
