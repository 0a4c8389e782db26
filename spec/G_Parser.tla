------------------------------ MODULE G_Parser ------------------------------
(* All grammars made of one combinator over combinators over five leaves,    *)
(* with all short texts.                                                     *)
EXTENDS Parser
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<0, 0>>}
Leaves == <<<<CU, 0, 97>>, <<CU, 1, 97>>, <<STR, 97, 98>>, <<ITER, 0, 0, -1, 1>>, <<EOL, 0>>>>
L == 0..4
Pairs == {<<i, j>> : i, j \in L} \ {<<i, i>> : i \in L}
First == {<<k>> \o p : k \in {SEQ, BRANCH, PERM}, p \in Pairs} \cup {<<ITER, i, m, x, g>> : i \in {0, 1, 2, 4}, m \in 0..2, x \in {-1, 1, 2}, g \in 0..1} \cup {<<PERM, 0, 1, 2>>, <<SEQ>>, <<BRANCH>>, <<PERM>>}
Second == {<<ITER, 5, m, x, g>> : m \in 0..2, x \in {-1, 2}, g \in 0..1} \cup {<<k, 5, i>> : k \in {SEQ, BRANCH, PERM}, i \in {0, 1, 4}} \cup {<<k, i, 5>> : k \in {SEQ, BRANCH, PERM}, i \in {0, 1, 4}}
\* no element is used twice
Under(n, i) == IF n[i + 1][1] = ITER THEN {n[i + 1][2]} \cup (IF n[i + 1][2] = 3 THEN {0} ELSE {}) ELSE IF n[i + 1][1] \in {SEQ, BRANCH, PERM} THEN {n[i + 1][j] : j \in 2..Len(n[i + 1])} ELSE {}
Deep(n, i) == LET a == Under(n, i) IN a \cup UNION {Under(n, j) : j \in a}
Disjoint(n, nd) == LET m == Append(n, nd) k == IF nd[1] = ITER THEN <<nd[2]>> ELSE Tail(nd) IN
    \A i, j \in 1..Len(k) : i < j => ({k[i]} \cup Deep(m, k[i])) \cap ({k[j]} \cup Deep(m, k[j])) = {}
Calls(s) == IF Len(s.n) < 5 THEN {<<"node", Leaves[Len(s.n) + 1]>>}
    ELSE IF Len(s.n) = 5 THEN {<<"node", x>> : x \in {y \in First : Disjoint(s.n, y)}}
    ELSE IF Len(s.n) = 6 THEN {<<"node", x>> : x \in {y \in Second : Disjoint(s.n, y)}}
    ELSE IF s.u = <<>> THEN {<<"text", t>> : t \in UNION {[1..n -> {97, 98, 10}] : n \in 1..Most}}
    ELSE {<<"match", <<6, p, e, 0, 0>>>> : p \in {0}, e \in {Len(s.u)}} \cup {<<"match", <<6, 1, Len(s.u) - 1, 2, 0>>>>}
INSTANCE GenBase WITH Start <- PStart, Eval <- PEval
\* what is promised of any grammar: a match lies within the limits, and is what it is whoever asks
Inv == /\ st.u # <<>> /\ Len(st.n) = 7 =>
            \A p \in 0..Len(st.u), f \in {0} : \A i \in 5..6 :
                LET e == Len(st.u) r == M(st.n, 0, st.u, i, p, e, f) k == st.n[i + 1] IN
                /\ r.ok => r.e \in p..e /\ \A j \in 1..Len(r.v) : r.v[j][2] = 1 => r.v[j][3] >= p /\ r.v[j][4] <= r.e /\ r.v[j][3] <= r.v[j][4]
                /\ k[1] = ITER /\ k[3] = 0 => r.ok
                /\ k[1] = BRANCH => r.ok = \E j \in 2..Len(k) : M(st.n, 0, st.u, k[j], p, e, f).ok
                /\ k[1] = PERM /\ Len(k) = 3 =>
                     LET m == [st.n EXCEPT ![i + 1] = <<SEQ, k[2], k[3]>>] w == [st.n EXCEPT ![i + 1] = <<SEQ, k[3], k[2]>>] IN
                     r.ok = (M(m, 0, st.u, i, p, e, f).ok \/ M(w, 0, st.u, i, p, e, f).ok)
       \* a numeral means its value
       /\ st.n = <<>> =>
            LET D == [i \in 1..7 |-> <<CU, 0, <<73, 86, 88, 76, 67, 68, 77>>[i]>>] N == D \o <<<<ROMAN, 0, 1, 2, 3, 4, 5, 6, -1, -1>>>>
                RECURSIVE W(_, _) W(v, i) == LET T == <<<<1000, <<77>>>>, <<900, <<67, 77>>>>, <<500, <<68>>>>, <<400, <<67, 68>>>>, <<100, <<67>>>>, <<90, <<88, 67>>>>, <<50, <<76>>>>, <<40, <<88, 76>>>>, <<10, <<88>>>>, <<9, <<73, 88>>>>, <<5, <<86>>>>, <<4, <<73, 86>>>>, <<1, <<73>>>>>> IN
                    IF v = 0 THEN <<>> ELSE IF v >= T[i][1] THEN T[i][2] \o W(v - T[i][1], i) ELSE W(v, i + 1) IN
            \A v \in {1, 4, 8, 9, 14, 19, 40, 44, 49, 88, 90, 94, 99, 400, 444, 499, 888, 900, 949, 999, 1000, 1666, 1999, 2024, 3888, 3999} :
                LET u == W(v, 1) r == M(N, 0, u, 7, 0, Len(u), 0) IN r.ok /\ r.e = Len(u) /\ r.x = v
=============================================================================
