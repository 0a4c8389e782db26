------------------------------- MODULE G_Cache -------------------------------
(* The caching algorithm refines the plain file: st.p is the specification,   *)
(* st.x the algorithm, stepped together.                                      *)
EXTENDS Cache, CacheAlg
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<b, n, 0, 0>> : b \in {1, 2, 3}, n \in {0, 3, 5}}
GStart(a) == {[p |-> p, x |-> ANew(a[1], p.d, p.off), ok |-> TRUE] : p \in Start(a)}
Calls(s) == {<<"read", <<n>>>> : n \in {1, 2, 4}} \cup {<<"write", <<n, 7>>>> : n \in {1, 2, 4}}
    \cup {<<"seek", <<n, 0>>>> : n \in {0, 1, 2, 4, 7} \ {s.p.off}} \cup {<<"seek", <<0, 2>>>>}
    \cup {<<"truncate", <<>>>>, <<"flush", <<>>>>}
AStep(x, op, a, p) ==
    CASE op = "read" -> ARead(x, a[1], <<>>)
      [] op = "write" -> [x |-> AWrite(x, PatSeq(a[2], a[1])), out |-> <<>>]
      [] op = "seek" -> [x |-> [x EXCEPT !.off = p.off], out |-> <<>>]
      [] op = "truncate" -> [x |-> ATruncate(x), out |-> <<>>]
      [] op = "flush" -> [x |-> Clean(x), out |-> <<>>]
GEval(s, op, a) == {LET y == AStep(s.x, op, a, o.s) IN
                    [r |-> o.r, s |-> [p |-> [o.s EXCEPT !.clean = FALSE], x |-> y.x,
                        ok |-> (op # "read" \/ y.out = SubSeq(o.r, 3, Len(o.r))) /\ (op # "flush" \/ y.x.src = o.s.d)]]
                    : o \in Eval(s.p, op, a)}
INSTANCE GenBase WITH Eval <- GEval, Start <- GStart
Inv == st.ok /\ View(st.x) = st.p.d /\ st.x.off = st.p.off
=============================================================================
