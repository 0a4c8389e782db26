----------------------------- MODULE G_SysPipe -----------------------------
EXTENDS SysPipe
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<0, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 2, 0>>, <<1, 1, 1, 0>>, <<1, 0, 1, 1>>, <<1, 2, 0, 0>>}
Calls(s) ==
    (IF s.w[1] = 2 /\ ~(s.own[1] /\ ~Gone(s, 2)) THEN {} ELSE {<<"write", <<1, 5, 3>>>>})
    \cup (IF s.kind = 1 THEN {<<"write", <<2, 6, 2>>>>} ELSE {})
    \cup UNION {IF ~s.own[k] \/ (Gone(s, 3 - k) /\ s.w[3 - k] # 2) \/ (s.nb /\ s.w[k] # 2) THEN {<<"read", <<k, 2>>>>} ELSE {<<"read", <<k, n>>>> : n \in {n \in {1, 3} : n <= s.low[k] /\ s.w[k] # 2}} : k \in IF s.kind = 0 THEN {2} ELSE {1, 2}}
    \cup (IF s.own[1] /\ s.own[2] /\ s.h = <<1, 1>> /\ s.q = <<<<>>, <<>>>> THEN {<<"slow_read", <<2, 6, 4 + 2 * (IF s.w[2] = 2 THEN 5 ELSE 0), IF s.w[2] = 2 THEN 1 ELSE 0>>>>, <<"slow_read", <<2, 5, 8, 1>>>>} ELSE {})
    \cup {<<"flush", <<1>>>>, <<"close", <<1>>>>, <<"close", <<2>>>>, <<"destroy", <<1>>>>, <<"move", <<1>>>>}
    \cup (IF s.h[1] < 2 THEN {<<"hold", <<1>>>>} ELSE {}) \cup (IF s.h[1] = 2 THEN {<<"release", <<1, 1>>>>} ELSE {})
INSTANCE GenBase
Inv == TypeOK(st)
=============================================================================
