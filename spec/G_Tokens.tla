------------------------------ MODULE G_Tokens ------------------------------
EXTENDS Tokens
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<>>}
Lists == UNION {[1..n -> 0..2] : n \in 0..Most}
Stacks == {x \in Lists : \A i, j \in 1..Len(x) : i # j => x[i] # x[j]}
Calls(s) == {<<"end", x>> : x \in Stacks} \cup UNION {{<<"begin", <<n>> \o x>> : n \in 0..Len(x)} : x \in {y \in Stacks : Len(s.act) + Len(y) <= 3}}
    \cup (IF Len(s.ins) < 2 THEN {<<"insert", <<t, w, 0>> \o x>> : t \in {0, 4, 5}, w \in {1, 2}, x \in {y \in Stacks : Len(y) < 2}} ELSE {})
    \cup {<<"word", <<w, f>>>> : w \in {1, 2}, f \in {0, 1}}
    \cup (IF s = New THEN UNION {{<<"merge", <<n>> \o x>> : n \in 0..Len(x)} : x \in Lists} ELSE {})
INSTANCE GenBase
\* what is ended and started leads from one stack to the other
RECURSIVE After(_, _)
After(act, out) == IF out = <<>> THEN act
    ELSE IF Head(out) >= 100 THEN (IF act # <<>> /\ act[Len(act)] = Head(out) - 100 THEN After(SubSeq(act, 1, Len(act) - 1), Tail(out)) ELSE <<-1>>)
    ELSE After(Append(act, Head(out)), Tail(out))
Inv == \A new \in Stacks : LET k == Same(st.act, new, 1) IN After(st.act, Ended(st.act, new) \o Drop(new, k)) = new
=============================================================================
