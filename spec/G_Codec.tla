------------------------------ MODULE G_Codec ------------------------------
EXTENDS Codec
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<>>}
Calls(s) == {<<"enc", <<1, z>> \o b>> : z \in {0, 1}, b \in {<<>>, <<255>>, <<0, 16>>, <<1, 2, 251>>, <<0, 0, 0, 9>>}}
    \cup {<<"dec", <<1>> \o t>> : t \in {<<>>, <<65>>, <<47, 119>>, <<81, 81>>, <<81, 10, 56>>, <<81, 0, 56>>} \cup (IF Len(s.pd) = 3 THEN {<<61>>} ELSE IF Len(s.pd) = 2 THEN {<<61, 61>>, <<61, 61, 65>>} ELSE {})}
    \cup {<<"hexdec", <<1>> \o t>> : t \in {<<>>, <<48>>, <<70, 97>>, <<49, 32>>, <<32, 65>>, <<57, 0, 57>>}} \cup {<<"clear", <<>>>>}
INSTANCE GenBase
\* decoding is the inverse of encoding, in any two pieces
Inv == /\ Len(st.pe) < 3 /\ Len(st.pd) < 4 /\ Len(st.ph) < 2
       /\ Dec(<<>>, Enc(st.pe), <<>>).out = st.pe
       /\ LET b == st.pe \o <<200, 7>> t == Enc(b) IN \A k \in 0..Len(t) : LET x == Dec(<<>>, Take(t, k), <<>>) y == Dec(x.rest, Drop(t, k), <<>>) IN x.out \o y.out = b
=============================================================================
