----------------------------- MODULE G_Strings -----------------------------
EXTENDS Strings
CONSTANTS Depth, Recent, Cap
VARIABLES st, hist
Units == {0, 32, 97, 65}
Starts == {<<t>> \o b : t \in {0, 2}, b \in UNION {[1..n -> Units] : n \in 1..Cap}}
Srcs == {<<>>, <<0>>, <<97>>, <<97, 0>>, <<65, 32>>, <<97, 65, 0>>, <<32, 97, 97>>}
HasZ(u) == \E i \in 1..Len(u) : u[i] = 0
Lims(u) == 0..Len(u) \cup (IF HasZ(u) THEN {-1, -2} ELSE {})
Texts(y) == UNION {{<<y, l>> \o u : l \in Lims(u)} : u \in Srcs}
ZTexts(y) == {<<y, -1>> \o u : u \in {u \in Srcs : HasZ(u)}}
Calls(s) == LET b == s.b  n == Len(b)  y == s.t IN
    {<<"cpy", z>> : z \in {z \in ZTexts(y) : Len(Str(Src(z, 1))) < n}}
    \cup {<<"ncpy", <<l>> \o z>> : l \in 0..n, z \in Texts(y)}
    \cup UNION {{<<"ncpy1", <<y, l>> \o u>> : l \in 0..(IF HasZ(u) THEN n ELSE Min2(n, Len(u)))} : u \in Srcs}
    \cup (IF HasZ(b) THEN {<<"cat", z>> : z \in {z \in ZTexts(y) : Len(Cut(b, -1)) + Len(Str(Src(z, 1))) < n}}
                      \cup {<<"ncat1", z>> : z \in {z \in Texts(y) : z[2] >= 0 /\ Len(Cut(b, -1)) + Len(Str(Src(z, 1))) < n}} ELSE {})
    \cup {<<"ncat", <<l>> \o z>> : l \in 0..n, z \in Texts(y)}
    \cup {<<"case", <<u, l, c>>>> : u \in 0..1, l \in Lims(b), c \in 0..1}
    \cup {<<"trim", <<k, l, c>>>> : k \in 0..2, l \in Lims(b) \ {-1}, c \in 0..1}
    \cup {<<"dup", <<l>>>> : l \in Lims(b) \ {-2}}
    \cup {<<"len", <<l>>>> : l \in Lims(b)}
    \cup {<<"chr", <<k, l, c, u>>>> : k \in 0..3, l \in Lims(b), c \in 0..1, u \in {32, 97, 65}}
    \cup {<<"is", <<k, l, c>>>> : k \in 0..1, l \in Lims(b) \ {-1}, c \in 0..1}
    \cup {<<"cmp", <<k, l, 0>> \o z>> : k \in 0..2, l \in Lims(b) \ {-1}, z \in {z \in Texts(y) : z[2] # -1}}
    \cup (IF HasZ(b) THEN {<<"cmp", <<k, -1, c>> \o z>> : k \in 0..2, c \in 0..1, z \in ZTexts(y)} ELSE {})
    \cup {<<"str", <<k, l, c>> \o z>> : k \in 0..1, l \in Lims(b), c \in 0..1, z \in ZTexts(y)}
INSTANCE GenBase
S == Cut(st.b, Len(st.b))
Inv == /\ Trim(S, 0) = LTrim(RTrim(S, 0), 0) /\ Trim(Trim(S, 0), 0) = Trim(S, 0)
       /\ LoS(UpS(S, 0), 0) = LoS(S, 0)
       /\ \A u \in {Cut(q, -1) : q \in Srcs} : CmpS(S, u, st.t) = {-x : x \in CmpS(u, S, st.t)} /\ (CmpS(S, u, st.t) = {0} <=> S = u)
       /\ \A u \in Srcs : FindS(S, u) >= 0 => SubSeq(S, FindS(S, u) + 1, FindS(S, u) + Len(u)) = u
       /\ \A c \in Units : FindC(S, c, FALSE) <= FindC(S, c, TRUE)
       /\ \A l \in 0..Len(st.b), u \in Srcs : LET b == Put(st.b, l, u) IN Len(b) = Len(st.b) /\ Drop(b, l) = Drop(st.b, l) /\ Cut(b, l) = Cut(Take(u, l), l)
=============================================================================
