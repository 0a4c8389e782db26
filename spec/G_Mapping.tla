----------------------------- MODULE G_Mapping -----------------------------
EXTENDS Mapping
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Incr == {q \in UNION {[1..n -> 0..Most] : n \in 0..3} : \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]}
Maps == {<<f, t>> \in Incr \X Incr : Len(f) = Len(t)}
Starts == {<<0>> \o Concat([i \in 1..Len(m[1]) |-> <<m[1][i], m[2][i]>>]) : m \in Maps}
Calls(s) == {<<"s2dh", <<x, 0>>>> : x \in 0..(Most + 1)} \cup {<<"d2sh", <<x, 0>>>> : x \in 0..(Most + 1)}
INSTANCE GenBase
Seg(m, x, i) == Cardinality({k \in 1..Len(m) : m[k][i] <= x})
\* there and back, unless the image belongs to another point; points map to points; between the points, distances are kept
Inv == \A x \in 0..(Most + 1) :
    /\ (st.m = <<>> \/ (Seg(st.m, x, 1) = Seg(st.m, S2D(st.m, x), 2) /\ Seg(st.m, x, 1) > 0)) => D2S(st.m, S2D(st.m, x)) = x
    /\ \A i \in 1..Len(st.m) : S2D(st.m, st.m[i][1]) = st.m[i][2] /\ D2S(st.m, st.m[i][2]) = st.m[i][1]
    /\ (Seg(st.m, x, 1) = Seg(st.m, x + 1, 1) /\ Seg(st.m, x, 1) > 0) => S2D(st.m, x + 1) = S2D(st.m, x) + 1
=============================================================================
