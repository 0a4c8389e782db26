------------------------------ MODULE G_Escape ------------------------------
EXTENDS Escape
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<>>}
UrlBits == {37, 43, 52, 70, 103, 32}            \* % + 4 F g space
CssBits == {92, 110, 10, 52, 32, 34, 103}       \* \ n newline 4 space " g
HtmlBits == {38, 59, 60, 97, 39, 34, 160}
Plain(k) == UNION {[1..n -> IF k = 2 THEN {37, 43, 32, 97, 200, 52} ELSE IF k = 3 THEN CssBits ELSE HtmlBits] : n \in 0..Most - 1}
\* what a byte can not hold is left out for bytes
Wide(t) == {u \in UNION {[1..n -> CssBits] : n \in 0..Most} : t = 1 \/ ~\E i \in 1..(Len(u) - 3) : u[i] = 92 /\ u[i + 1] = 52 /\ u[i + 2] = 52 /\ u[i + 3] = 52}
Calls(s) == {<<"unesc", <<2, 0, f, 1, 65, IF f = 2 THEN -1 ELSE Len(u)>> \o u>> : f \in {0, 2}, u \in UNION {[1..n -> UrlBits] : n \in 0..Most}}
    \cup UNION {{<<"unesc", <<3, t, f, 0, IF f = 2 THEN -1 ELSE Len(u)>> \o u>> : f \in {0, 2}, u \in Wide(t)} : t \in 0..1}
    \cup {<<"unesc", <<k, 0, 0, 0, -1>> \o u \o <<0>>>> : k \in {2, 3}, u \in UNION {[1..n -> {37, 92, 52, 110}] : n \in 0..Most}}
    \cup UNION {{<<"esc", <<k, t, f, 0, Len(u), Len(u)>> \o u>> : t \in IF k = 2 THEN {0} ELSE IF k < 2 THEN {1} ELSE 0..1, f \in {0, 2}, u \in Plain(k)} : k \in 0..3}
INSTANCE GenBase WITH Eval <- EEval
\* unescaping undoes the simplest escaping
HexC(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE UrlEsc(_)
UrlEsc(u) == IF u = <<>> THEN <<>> ELSE (IF Head(u) \in Meta(2, 0) THEN <<37, HexC(Head(u) \div 16), HexC(Head(u) % 16)>> ELSE <<Head(u)>>) \o UrlEsc(Tail(u))
RECURSIVE CssEsc(_)
CssEsc(u) == IF u = <<>> THEN <<>> ELSE (CASE Head(u) = 10 -> <<92, 110>> [] Head(u) \in {92, 34, 39} -> <<92, Head(u)>> [] OTHER -> <<Head(u)>>) \o CssEsc(Tail(u))
Inv == /\ \A u \in Plain(2) : Url(UrlEsc(u), 1, <<>>) = u /\ Escaped(2, 0, UrlEsc(u), u)
       /\ \A u \in Plain(3) : Css(CssEsc(u), 1, <<>>) = {u} /\ Escaped(3, 0, CssEsc(u), u)
=============================================================================
