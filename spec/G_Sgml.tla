------------------------------ MODULE G_Sgml ------------------------------
EXTENDS Sgml
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<>>}
\* & # ; x l t 3 9
Bits == {38, 35, 59, 120, 108, 116, 51, 57}
Texts == UNION {[1..n -> Bits] : n \in 0..Most}
Extra == {<<38, 35, 120>> \o d \o <<59>> : d \in {<<49, 48, 102, 102, 102, 102>>, <<49, 49, 48, 48, 48, 48>>, <<48>>, <<49, 102, 52, 49, 52>>, <<48, 48, 52, 49>>, <<103>>}}
Plain == UNION {[1..n -> {97, 38, 34, 60, 196, 65, 774, 59}] : n \in 0..3}
Calls(s) == {<<"dec", <<t, 1, f, k, 3, o, 5, 1, 97, Len(u)>> \o u>> : t \in {0}, f \in {0, 3}, k \in {0, 8}, o \in {0}, u \in Texts}
    \cup {<<"dec", <<t, f, 2, 0, 0, 1, 0, 0, -1>> \o u \o <<0>>>> : t \in 0..1, f \in 0..1, u \in Extra}
    \cup {<<"err", <<f, 0, 0, Len(u)>> \o u>> : f \in 0..2, u \in {x \in Texts : Len(x) < Most}}
    \cup {<<"enc", <<t, f, w, 9, 0, -1, Len(u) + 1>> \o u \o <<0>>>> : t \in 0..1, f \in {2, 4}, w \in {0, 9, 4096}, u \in Plain}
INSTANCE GenBase
\* a spelling of a text, and decoding it
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexS(_)
HexS(v) == IF v < 16 THEN <<Hex(v)>> ELSE Append(HexS(v \div 16), Hex(v % 16))
Enc1(c) == IF c < 128 /\ c # 38 THEN <<c>> ELSE <<38, 35, 120>> \o HexS(c) \o <<59>>
RECURSIVE Enc(_)
Enc(u) == IF u = <<>> THEN <<>> ELSE Enc1(Head(u)) \o Enc(Tail(u))
Inv == \A u \in Plain : /\ Dec(Enc(u), 1, 0)[1] = u /\ Spells(Enc(u), 1, u, 1, 1, {}, FALSE) /\ ErrAt(Enc(u), 1) = -1
                        /\ LET p == Dec(Enc(u), 0, 0)[2] IN \A i \in 2..Len(p) : p[i - 1][1] <= p[i][1] /\ p[i - 1][2] <= p[i][2]
=============================================================================
