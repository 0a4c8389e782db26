------------------------------- MODULE Escape -------------------------------
(* T03. Kinds: 0 HTML, 1 HTML (minimal), 2 URL, 3 CSS; characters: 0 bytes,   *)
(* 1 wide. Escaped: no unescaped metacharacters, and it stands for the text.  *)
EXTENDS Sgml
Meta(k, t) == CASE k = 0 -> {38, 59, 34, 39, 60, 62} \cup (IF t = 1 THEN {160} ELSE {})
                [] k = 1 -> {38, 60, 62} \cup (IF t = 1 THEN {160} ELSE {})
                [] k = 2 -> (0..32) \cup (127..255) \cup {60, 62, 35, 37, 123, 125, 124, 92, 94, 126, 91, 93, 96, 59, 43, 47, 63, 58, 64, 61, 38, 36}
                [] OTHER -> {92, 10, 13, 9, 34, 39}
\* URL: + is a space, %xx a byte; anything else after % is kept
IsHex(u, i) == i <= Len(u) /\ Digit(u[i]) < 16
RECURSIVE Url(_, _, _)
Url(u, i, out) == IF i > Len(u) THEN out
    ELSE IF u[i] = 43 THEN Url(u, i + 1, Append(out, 32))
    ELSE IF u[i] = 37 /\ IsHex(u, i + 1) /\ IsHex(u, i + 2) THEN Url(u, i + 3, Append(out, Digit(u[i + 1]) * 16 + Digit(u[i + 2])))
    ELSE Url(u, i + 1, Append(out, u[i]))
RECURSIVE HexRun(_, _, _)
HexRun(u, i, n) == IF n = 6 \/ ~IsHex(u, i + n) THEN n ELSE HexRun(u, i, n + 1)
RECURSIVE HexVal(_, _, _)
HexVal(u, i, n) == IF n = 0 THEN 0 ELSE HexVal(u, i, n - 1) * 16 + Digit(u[i + n - 1])
\* CSS. A space following six digits may or may not belong to them; a lone \ may or may not be kept.
RECURSIVE Css(_, _, _)
Css(u, i, out) == IF i > Len(u) THEN {out}
    ELSE IF u[i] # 92 THEN Css(u, i + 1, Append(out, u[i]))
    ELSE IF i = Len(u) THEN {Append(out, 92)}
    ELSE LET c == u[i + 1] IN
         CASE c = 110 -> Css(u, i + 2, Append(out, 10)) [] c = 114 -> Css(u, i + 2, Append(out, 13)) [] c = 116 -> Css(u, i + 2, Append(out, 9))
           [] c = 10 -> Css(u, i + 2, out)
           [] IsHex(u, i + 1) -> LET n == HexRun(u, i + 1, 0) o == Append(out, HexVal(u, i + 1, n)) p == i + 1 + n sp == p <= Len(u) /\ u[p] = 32 IN
                  (IF sp THEN Css(u, p + 1, o) ELSE Css(u, p, o)) \cup (IF sp /\ n = 6 THEN Css(u, p, o) ELSE {})
           [] OTHER -> Css(u, i + 2, Append(out, c))
RECURSIVE HtmlRaw(_, _, _)   \* only entities where there is a metacharacter
HtmlRaw(o, i, m) == IF i > Len(o) THEN TRUE ELSE IF o[i] = 38 THEN LET e == End(o, i + 1) IN e # 0 /\ Stands(SubSeq(o, i + 1, e - 1)) # <<>> /\ HtmlRaw(o, e + 1, m)
                    ELSE o[i] \notin m /\ HtmlRaw(o, i + 1, m)
RECURSIVE CssRaw(_, _, _)
CssRaw(o, i, m) == IF i > Len(o) THEN TRUE ELSE IF o[i] = 92 THEN i < Len(o) /\ CssRaw(o, i + 2, m) ELSE o[i] \notin m /\ CssRaw(o, i + 1, m)
RECURSIVE UrlRaw(_, _, _)
UrlRaw(o, i, m) == IF i > Len(o) THEN TRUE ELSE IF o[i] = 37 THEN IsHex(o, i + 1) /\ IsHex(o, i + 2) /\ UrlRaw(o, i + 3, m)
                   ELSE (o[i] = 43 \/ o[i] \notin m) /\ UrlRaw(o, i + 1, m)
Escaped(k, t, o, u) == CASE k < 2 -> HtmlRaw(o, 1, Meta(k, t)) /\ Dec(o, 1, 0)[1] = u
                         [] k = 2 -> UrlRaw(o, 1, Meta(k, t)) /\ Url(o, 1, <<>>) = u
                         [] OTHER -> CssRaw(o, 1, Meta(k, t)) /\ Css(o, 1, <<>>) = {u}
EEval(s, op, a) ==
    CASE op = "escd" -> \* kind, characters, form, length of what is there already.., limit, length of text.., what was appended. Result: is the rest kept; what it unescapes to
            LET p == 5 + a[4] u == Cut(SubSeq(a, p + 2, p + 1 + a[p + 1]), a[p]) o == Drop(a, p + 1 + a[p + 1]) IN
            IF Escaped(a[1], a[2], o, u) THEN {[r |-> <<1>> \o u, s |-> s]} ELSE {}
      [] op = "unesc" -> LET p == 5 + a[4] pre == SubSeq(a, 5, 4 + a[4]) u == Cut(Drop(a, p), a[p]) IN
            {[r |-> pre \o x, s |-> s] : x \in IF a[1] = 2 THEN {Url(u, 1, <<>>)} ELSE Css(u, 1, <<>>)}
      [] op = "esc" -> {[r |-> <<>>, s |-> s]}
      [] OTHER -> {}
=============================================================================
