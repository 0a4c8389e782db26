------------------------------ MODULE G_Hash ------------------------------
EXTENDS Hash
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<k>> : k \in 1..3}
Calls(s) == {<<"clear", <<>>>>} \cup IF s.done THEN {} ELSE {<<"hash", PatSeq(n, n)>> : n \in {0, 1, 8, 55, 56, 63, 64, 65, 119}}
    \cup {<<"final", <<>>>>, <<"sread", <<9, 5, OK, 4>>>>, <<"sread", <<9, 0, EOF, 4>>>>, <<"swrite", <<9, 7, FAIL, 4>>>>} \cup (IF s.kind = 1 THEN {<<"resume", <<>>>>} ELSE {})
INSTANCE GenBase
\* a CRC of a whole is the continuation of the CRC of a part
Inv == LET m == st.m k == Len(m) \div 2 IN st.kind = 1 => CrcRun(CrcRun(Ones, Take(m, k)), Drop(m, k)) = CrcRun(Ones, m)
=============================================================================
