----------------------------- MODULE G_SysFile -----------------------------
EXTENDS SysFile
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<3, -1, 2>>}
RW == 131  Wr == 130  Rdo == 129
Modes == {RW, Rdo, RW + 8, RW + 16, RW + 24, RW + 32, Wr + 16 + 64, Wr, RW + 64, Rdo + 16, Rdo + 24}
Calls(s) ==
    {<<"open", <<1, n, m>>>> : n \in {1, 2}, m \in Modes} \cup {<<"open", <<2, 1, RW>>>>, <<"open", <<4, 3, RW>>>>, <<"open", <<4, 3, Wr + 32>>>>, <<"open", <<4, 3, Wr + 64>>>>, <<"open", <<1, 1, RW + 40>>>>}
    \cup {<<o, <<k>>>> : o \in {"truncate", "close", "remainder"}, k \in {1, 2}}
    \cup {<<"read", <<k, 2>>>> : k \in {1, 2}} \cup {<<"write", <<1, 4, 2>>>>, <<"write", <<2, 4, 2>>>>, <<"seek", <<1, 5, 0>>>>, <<"seek", <<1, -1, 1>>>>, <<"seek", <<1, -1, 2>>>>, <<"skip", <<1, 1>>>>}
    \cup {<<o, <<1, 2>>>> : o \in {"copy_ctor", "copy_assign", "move_ctor", "move_assign"}} \cup {<<"copy_assign", <<1, 1>>>>, <<"move_assign", <<1, 1>>>>}
    \cup {<<"lock", <<1, 2, 3>>>>, <<"unlock", <<1, 3, 1>>>>, <<"times", <<1, 5, 0, -3, 999999999>>>>}
    \cup (IF s.slots[4].d = 0 THEN {} ELSE {<<"read", <<4, 1>>>>, <<"write", <<4, 5, 3>>>>, <<"seek", <<4, 1, 0>>>>, <<"truncate", <<4>>>>, <<"flush", <<4>>>>, <<"close", <<4>>>>})
INSTANCE GenBase
Inv == TypeOK(st)
=============================================================================
