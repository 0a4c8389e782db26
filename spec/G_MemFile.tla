----------------------------- MODULE G_MemFile -----------------------------
EXTENDS MemFile
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<0, 0, 0>>, <<1, 0, 5>>, <<2, 2, 3>>, <<3, 3, 3>>}
Calls(s) ==
    LET small == Len(s.f[1].d) <= 4 /\ s.f[1].off <= 5 IN
    IF ~small THEN {} ELSE
    {<<"read", <<1, n>>>> : n \in {0, 1, 2}}
    \cup {<<"write", <<1, t, n>>>> : t \in {1}, n \in {0, 1, 2}}
    \cup {<<"seek", <<1, n, 0>>>> : n \in {-1, 0, 2, 4}} \cup {<<"seek", <<1, n, 1>>>> : n \in {-1, 1}}
    \cup {<<"seek", <<1, n, 2>>>> : n \in {-1, 1}}
    \cup {<<"skip", <<1, 1>>>>, <<"truncate", <<1>>>>, <<"read_byte", <<1>>>>, <<"write_byte", <<1, 7, 1>>>>,
          <<"write_byte", <<1, 7, 2>>>>, <<"read_remainder", <<1, -1>>>>, <<"read_remainder", <<1, 1>>>>,
          <<"read_data", <<1, 2>>>>, <<"write_data", <<1, 2, 2>>>>, <<"reserve", <<1, 1, 1>>>>, <<"reserve", <<1, 3, 0>>>>,
          <<"read_array", <<1, 2, 1>>>>,
          <<"write_stream", <<1, 3, 2, 1, -1>>>>, <<"write_stream", <<1, 3, 2, 1, 1>>>>, <<"write_stream", <<1, 3, 1, 2, 2>>>>,
          <<"close", <<1>>>>, <<"flush", <<1>>>>, <<"copy_ctor", <<1>>>>, <<"move_assign", <<1>>>>, <<"move_ctor", <<1>>>>}
INSTANCE GenBase
Inv == TypeOK(st)
Bound == TRUE
=============================================================================
