-------------------------------- MODULE Html --------------------------------
(* T04. An HTML document: its source is cut into sequences (texts, tags,      *)
(* declarations, comments..), start and end tags are paired, and a tree of    *)
(* tokens is made of them from which the source can be rebuilt.               *)
EXTENDS Markup
Es == INSTANCE Escape
\* --- elements
Names == <<
    "a", "abbr", "acronym", "address", "applet", "area", "b", "base", "basefont", "bdo", "bgsound", "big", "blink", "blockquote", "body", "br",
    "button", "caption", "center", "cite", "code", "col", "colgroup", "comment", "dd", "del", "dfn", "dir", "div", "dl", "dt", "em", "embed",
    "fieldset", "font", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "hr", "html", "i", "iframe", "img", "input", "ins",
    "isindex", "kbd", "label", "legend", "li", "link", "listing", "map", "marquee", "menu", "meta", "nextid", "nobr", "noembed", "noframes",
    "noscript", "object", "ol", "optgroup", "option", "p", "param", "plaintext", "pre", "q", "rt", "ruby", "s", "samp", "script", "select", "small",
    "span", "strike", "strong", "style", "sub", "sup", "table", "tbody", "td", "textarea", "tfoot", "th", "thead", "title", "tr", "tt", "u", "ul",
    "var", "wbr", "xmp" >>
Spelled == <<
    <<97>>, <<97, 98, 98, 114>>, <<97, 99, 114, 111, 110, 121, 109>>, <<97, 100, 100, 114, 101, 115, 115>>, <<97, 112, 112, 108, 101, 116>>,
    <<97, 114, 101, 97>>, <<98>>, <<98, 97, 115, 101>>, <<98, 97, 115, 101, 102, 111, 110, 116>>, <<98, 100, 111>>,
    <<98, 103, 115, 111, 117, 110, 100>>, <<98, 105, 103>>, <<98, 108, 105, 110, 107>>, <<98, 108, 111, 99, 107, 113, 117, 111, 116, 101>>,
    <<98, 111, 100, 121>>, <<98, 114>>, <<98, 117, 116, 116, 111, 110>>, <<99, 97, 112, 116, 105, 111, 110>>, <<99, 101, 110, 116, 101, 114>>,
    <<99, 105, 116, 101>>, <<99, 111, 100, 101>>, <<99, 111, 108>>, <<99, 111, 108, 103, 114, 111, 117, 112>>, <<99, 111, 109, 109, 101, 110, 116>>,
    <<100, 100>>, <<100, 101, 108>>, <<100, 102, 110>>, <<100, 105, 114>>, <<100, 105, 118>>, <<100, 108>>, <<100, 116>>, <<101, 109>>,
    <<101, 109, 98, 101, 100>>, <<102, 105, 101, 108, 100, 115, 101, 116>>, <<102, 111, 110, 116>>, <<102, 111, 114, 109>>,
    <<102, 114, 97, 109, 101>>, <<102, 114, 97, 109, 101, 115, 101, 116>>, <<104, 49>>, <<104, 50>>, <<104, 51>>, <<104, 52>>, <<104, 53>>,
    <<104, 54>>, <<104, 101, 97, 100>>, <<104, 114>>, <<104, 116, 109, 108>>, <<105>>, <<105, 102, 114, 97, 109, 101>>, <<105, 109, 103>>,
    <<105, 110, 112, 117, 116>>, <<105, 110, 115>>, <<105, 115, 105, 110, 100, 101, 120>>, <<107, 98, 100>>, <<108, 97, 98, 101, 108>>,
    <<108, 101, 103, 101, 110, 100>>, <<108, 105>>, <<108, 105, 110, 107>>, <<108, 105, 115, 116, 105, 110, 103>>, <<109, 97, 112>>,
    <<109, 97, 114, 113, 117, 101, 101>>, <<109, 101, 110, 117>>, <<109, 101, 116, 97>>, <<110, 101, 120, 116, 105, 100>>, <<110, 111, 98, 114>>,
    <<110, 111, 101, 109, 98, 101, 100>>, <<110, 111, 102, 114, 97, 109, 101, 115>>, <<110, 111, 115, 99, 114, 105, 112, 116>>,
    <<111, 98, 106, 101, 99, 116>>, <<111, 108>>, <<111, 112, 116, 103, 114, 111, 117, 112>>, <<111, 112, 116, 105, 111, 110>>, <<112>>,
    <<112, 97, 114, 97, 109>>, <<112, 108, 97, 105, 110, 116, 101, 120, 116>>, <<112, 114, 101>>, <<113>>, <<114, 116>>, <<114, 117, 98, 121>>,
    <<115>>, <<115, 97, 109, 112>>, <<115, 99, 114, 105, 112, 116>>, <<115, 101, 108, 101, 99, 116>>, <<115, 109, 97, 108, 108>>,
    <<115, 112, 97, 110>>, <<115, 116, 114, 105, 107, 101>>, <<115, 116, 114, 111, 110, 103>>, <<115, 116, 121, 108, 101>>, <<115, 117, 98>>,
    <<115, 117, 112>>, <<116, 97, 98, 108, 101>>, <<116, 98, 111, 100, 121>>, <<116, 100>>, <<116, 101, 120, 116, 97, 114, 101, 97>>,
    <<116, 102, 111, 111, 116>>, <<116, 104>>, <<116, 104, 101, 97, 100>>, <<116, 105, 116, 108, 101>>, <<116, 114>>, <<116, 116>>, <<117>>,
    <<117, 108>>, <<118, 97, 114>>, <<119, 98, 114>>, <<120, 109, 112>> >>
Immediate == {"area", "base", "basefont", "bgsound", "br", "col", "embed", "frame", "hr", "img", "input", "isindex", "link", "meta", "nextid", "param", "rt", "wbr"}
EndOptional == {"body", "colgroup", "dd", "dt", "head", "html", "li", "option", "p", "plaintext", "tbody", "td", "tfoot", "th", "thead", "tr"}
FontStyle == {"tt", "i", "b", "u", "s", "strike", "blink", "big", "small"}
Phrase == {"em", "strong", "dfn", "code", "samp", "kbd", "var", "cite", "abbr", "acronym", "xmp"}
Special == {"a", "img", "applet", "object", "embed", "font", "basefont", "br", "wbr", "rt", "script", "map", "q", "sub", "sup", "ruby", "span", "bdo", "iframe", "nobr"}
FormCtrl == {"input", "select", "textarea", "label", "button"}
Inline == {"PCDATA"} \cup FontStyle \cup Phrase \cup Special \cup FormCtrl
Heading == {"h1", "h2", "h3", "h4", "h5", "h6"}
Lists == {"ul", "ol", "dir", "menu"}
Block == Heading \cup Lists \cup {"pre", "listing"} \cup {"p", "dl", "div", "center", "marquee", "noscript", "noframes", "noembed", "blockquote", "form", "isindex", "hr", "table", "fieldset", "address"}
Flow == Block \cup Inline
HeadContent == {"title", "isindex", "base", "nextid"}
HeadMisc == {"script", "style", "meta", "link", "object"}
PreExclusion == {"img", "object", "applet", "embed", "big", "small", "sub", "sup", "ruby", "font", "basefont", "nobr"}
HtmlContent == {"head", "body", "frameset"}
Group == Block \cup HtmlContent \cup HeadContent \cup {"col", "colgroup", "dd", "dir", "dt", "frame", "iframe", "legend", "td", "th", "tr"}
\* what is inside of these is kept as it is, and their content is not looked at
Verbatim == {"address", "code", "comment", "cite", "kbd", "samp", "script", "style"}
Opaque == {"code", "comment", "script", "style"}
MayContain(p, c) ==
    IF c \in {"?", "comment"} THEN TRUE
    ELSE CASE p = "?" -> TRUE
      [] p \in FontStyle \cup Phrase \cup Heading \cup {"bdo", "caption", "dt", "font", "legend", "p", "q", "ruby", "span", "sub", "sup", "nobr"} -> c \in Inline
      [] p \in {"blockquote", "center", "dd", "del", "div", "iframe", "ins", "li", "marquee", "noscript", "noembed", "plaintext", "td", "th"} -> c \in Flow
      [] p \in {"a", "label"} -> c \in Inline /\ c # p
      [] p = "address" -> c \in Inline \cup {"p"}
      [] p \in {"applet", "embed", "object"} -> c \in Flow \cup {"param"}
      [] p = "body" -> c \in Flow \cup {"ins", "del"}
      [] p = "button" -> c \in Flow \ (FormCtrl \cup {"a", "form", "isindex", "fieldset", "iframe"})
      [] p = "colgroup" -> c = "col"
      [] p \in {"comment", "listing", "script", "style"} -> c = "CDATA"
      [] p \in {"dir", "menu", "ol", "ul"} -> c = "li"
      [] p = "dl" -> c \in {"dt", "dd"}
      [] p = "fieldset" -> c \in Flow \cup {"legend"}
      [] p = "form" -> c \in Flow \ {"form"}
      [] p = "frameset" -> c \in {"frameset", "frame", "noframes"}
      [] p = "head" -> c \in HeadContent \cup HeadMisc
      [] p = "html" -> c \in HtmlContent
      [] p = "map" -> c \in Block \cup {"area"}
      [] p = "noframes" -> c \in (Flow \cup {"body"}) \ {"noframes"}
      [] p = "optgroup" -> c = "option"
      [] p \in {"option", "textarea", "title"} -> c = "PCDATA"
      [] p = "pre" -> c \in Inline \ PreExclusion
      [] p = "select" -> c \in {"optgroup", "option"}
      [] p = "table" -> c \in {"caption", "col", "colgroup", "thead", "tfoot", "tbody"}
      [] p \in {"tbody", "tfoot", "thead"} -> c = "tr"
      [] p = "tr" -> c \in {"td", "th"}
      [] OTHER -> FALSE
\* attributes that are addresses, and those that are texts: <<name, elements>>
Uris == << <<<<97, 99, 116, 105, 111, 110>>, {"form"}>>, <<<<98, 97, 99, 107, 103, 114, 111, 117, 110, 100>>, {"body", "table", "td", "th"}>>,
    <<<<98, 97, 115, 101, 104, 114, 101, 102>>, {"object"}>>, <<<<99, 105, 116, 101>>, {"blockquote", "del", "ins", "q"}>>, <<<<99, 108, 97, 115, 115, 105, 100>>, {"object"}>>,
    <<<<99, 111, 100, 101>>, {"applet", "object"}>>, <<<<99, 111, 100, 101, 98, 97, 115, 101>>, {"applet", "object"}>>, <<<<100, 97, 116, 97>>, {"comment", "object"}>>,
    <<<<104, 114, 101, 102>>, {"a", "area", "base", "link"}>>, <<<<108, 111, 110, 103, 100, 101, 115, 99>>, {"frame", "iframe", "img"}>>, <<<<108, 111, 119, 115, 114, 99>>, {"img", "input"}>>,
    <<<<112, 108, 117, 103, 105, 110, 115, 112, 97, 103, 101>>, {"embed"}>>, <<<<112, 114, 111, 102, 105, 108, 101>>, {"head"}>>,
    <<<<115, 114, 99>>, {"applet", "bgsound", "embed", "frame", "iframe", "img", "input", "script"}>>, <<<<117, 115, 101, 109, 97, 112>>, {"img", "input", "object"}>> >>
Texts_ == << <<<<97, 98, 98, 114>>, {"td", "th"}>>, <<<<97, 108, 116>>, {"applet", "area", "img", "input", "object"}>>, <<<<115, 117, 109, 109, 97, 114, 121>>, {"table"}>> >>
Listed(tab, c, n) == \E i \in 1..Len(tab) : tab[i][1] = n /\ c \in tab[i][2]
\* 1: address, 2: text, 0: neither
AttrKind(c, n) == IF Listed(Uris, c, n) THEN 1 ELSE IF n = <<116, 105, 116, 108, 101>> \/ Listed(Texts_, c, n) THEN 2 ELSE 0
Lower(u) == [i \in 1..Len(u) |-> Low(u[i])] \o <<>>
NameAt(u, p) == Lower(SubSeq(u, p[1], p[2] - 1))
Find_(n) == {i \in 1..Len(Names) : Spelled[i] = n}
Element_(n) == LET f == Find_(n) IN IF f = {} THEN "?" ELSE Names[CHOOSE i \in f : TRUE]
Code(c) == CASE c = "?" -> -1 [] c = "PCDATA" -> -2 [] c = "CDATA" -> -3 [] OTHER -> CHOOSE i \in 1..Len(Names) : Names[i] = c
------------------------------------------------------------------------------
(* The document: t: kind of characters, u: source, n: from where on it is not  *)
(* cut yet, q: sequences, k: open elements, v, g: open conditions that are     *)
(* valid and ignored, cd: within CDATA (1) or RCDATA (2), en: entities,        *)
(* cs: character set. mode: 0 being appended to, 1 finished, 2 failed.         *)
(* A sequence: ty, a, b: from, to; pa: open element; c: element; nm: name (or  *)
(* content); at: attributes; e: where an element started or ended.             *)
TEXT == 0 PCD == 7 CD == 8
New(t) == [t |-> t, u |-> <<>>, n |-> 1, q |-> <<>>, k |-> <<>>, v |-> 0, g |-> 0, cd |-> 0, en |-> <<>>, cs |-> 0, mode |-> 0]
Top(x) == IF x.k = <<>> THEN 0 ELSE x.k[Len(x.k)]
Seq_(ty, a, b, pa) == [ty |-> ty, a |-> a, b |-> b, pa |-> pa, c |-> "", nm |-> None, at |-> <<>>, e |-> 0]
AddText(x, i) == IF x.n < i THEN [x EXCEPT !.q = Append(@, Seq_(TEXT, x.n, i, Top(x)))] ELSE x
\* <<w with entities replaced>>; <<>> if one is not known
RECURSIVE Replace(_, _, _, _)
Replace(w, i, en, out) ==
    IF i > Len(w) THEN <<out>>
    ELSE IF w[i] # 37 THEN Replace(w, i + 1, en, Append(out, w[i]))
    ELSE LET f == {j \in 1..Len(en) : Has(w, i + 1, en[j][1] \o <<59>>)} IN
         IF f = {} THEN <<>> ELSE LET j == CHOOSE j \in f : \A k \in f : j <= k IN Replace(w, i + Len(en[j][1]) + 2, en, out \o en[j][2])
Quoted_(w) == Len(w) >= 2 /\ w[1] \in {34, 39} /\ w[Len(w)] = w[1]
Entity(x, at) ==
    LET n(i) == SubSeq(x.u, at[i][1][1], at[i][1][2] - 1) w == n(4) r == Replace(IF Quoted_(w) THEN SubSeq(w, 2, Len(w) - 1) ELSE w, 1, x.en, <<>>) IN
    IF Len(at) < 4 \/ Lower(n(1)) # <<101, 110, 116, 105, 116, 121>> \/ n(2) # <<37>> \/ w \in {<<83, 89, 83, 84, 69, 77>>, <<80, 85, 66, 76, 73, 67>>} THEN x
    ELSE IF r = <<>> THEN [x EXCEPT !.mode = 2] ELSE [x EXCEPT !.en = Append(@, <<n(3), r[1]>>)]
\* the character sets by their names (upper-case letters)
Charsets == << <<<<117, 116, 102, 45, 56>>, 2>>, <<<<117, 116, 102, 45, 49, 54>>, 3>>, <<<<99, 112, 49, 50, 53, 48>>, 5>>, <<<<119, 105, 110, 100, 111, 119, 115, 45, 49, 50, 53, 49>>, 6>>, <<<<119, 105, 110, 100, 111, 119, 115, 45, 49, 50, 53, 50>>, 7>> >>
Meta(x, at) ==
    LET v(i) == IF at[i][2] = None THEN <<>> ELSE NameAt(x.u, at[i][2])
        type(i) == NameAt(x.u, at[i][1]) = <<104, 116, 116, 112, 45, 101, 113, 117, 105, 118>> /\ v(i) = <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
        c == {i \in 1..Len(at) : ~type(i) /\ NameAt(x.u, at[i][1]) = <<99, 111, 110, 116, 101, 110, 116>>}
        l == at[CHOOSE i \in c : \A j \in c : j <= i][2]
        m == Mime(SubSeq(x.u, 1, l[2] - 1), l[1])
        f == {i \in 1..Len(Charsets) : Charsets[i][1] = NameAt(x.u, m[4])} IN
    IF x.cs # 0 \/ c = {} \/ ~(\E i \in 1..Len(at) : type(i)) THEN x
    ELSE IF l = None THEN x
    ELSE IF m = <<>> THEN x
    ELSE IF m[4] = None THEN x
    ELSE IF f = {} THEN x ELSE [x EXCEPT !.cs = Charsets[CHOOSE i \in f : TRUE][2]]
\* elements that may not contain a new one are closed by it: sequence number j
RECURSIVE Close(_, _, _)
Close(x, c, j) == IF x.k = <<>> THEN x ELSE IF MayContain(x.q[Top(x)].c, c) THEN x
                  ELSE Close([x EXCEPT !.q[Top(x)].e = j, !.k = SubSeq(@, 1, Len(@) - 1)], c, j)
Start_(x, g, i) ==
    LET c == Element_(NameAt(x.u, g[3])) j == Len(x.q) + 1 y == Close(x, c, j) empty == g[2] = STARTTAG /\ c \in Immediate
        s == [Seq_(g[2], i, g[1], Top(y)) EXCEPT !.c = c, !.nm = g[3], !.at = g[4], !.e = IF empty THEN j ELSE 0]
        z == [y EXCEPT !.q = Append(@, s), !.k = IF g[2] = STARTTAG /\ ~empty THEN Append(@, j) ELSE @] IN
    IF c = "meta" THEN Meta(z, g[4]) ELSE z
\* the nearest open element with the same name
End_(x, g, i) ==
    LET n == NameAt(x.u, g[3]) c == Element_(n) j == Len(x.q) + 1
        f == {m \in 1..Len(x.k) : x.q[x.k[m]].c = c /\ (c = "?" => NameAt(x.u, x.q[x.k[m]].nm) = n)}
        m == CHOOSE m \in f : \A o \in f : o <= m
        s(pa, e) == [Seq_(ENDTAG, i, g[1], pa) EXCEPT !.c = c, !.nm = g[3], !.e = e] IN
    IF f = {} THEN [x EXCEPT !.q = Append(@, s(Top(x), 0))]
    ELSE [x EXCEPT !.q = Append([@ EXCEPT ![x.k[m]].e = j], s(x.q[x.k[m]].pa, x.k[m])), !.k = SubSeq(@, 1, m - 1)]
TagAt(x, g, i) ==
    CASE g[2] \in {ELEMENT, STARTTAG} -> Start_(x, g, i)
      [] g[2] = ENDTAG -> End_(x, g, i)
      [] OTHER -> LET y == IF g[2] = DECLARATION THEN Entity(x, g[4]) ELSE x IN
                  IF y.mode = 2 THEN y ELSE [y EXCEPT !.q = Append(@, [Seq_(g[2], i, g[1], Top(y)) EXCEPT !.nm = g[3], !.at = g[4]])]
CDATA_ == <<67, 68, 65, 84, 65>> RCDATA_ == <<82, 67, 68, 65, 84, 65>> IGNORE_ == <<73, 71, 78, 79, 82, 69>>
RECURSIVE Go(_, _)
Go(x, i0) ==
    LET i == Until(x.u, i0, {60, 93}) e == CondEnd(x.u, i) c == CondStart(x.u, i) IN
    IF x.mode = 2 \/ i > Len(x.u) THEN x
    ELSE IF x.cd # 0 THEN
        (IF e = 0 THEN Go(x, i + 1) ELSE Go([x EXCEPT !.q = Append(@, Seq_(IF x.cd = 1 THEN CD ELSE PCD, x.n, e, Top(x))), !.cd = 0, !.n = e], e))
    ELSE IF x.g > 0 THEN
        (IF e # 0 THEN Go([x EXCEPT !.g = @ - 1, !.n = e], e) ELSE IF c # <<>> THEN Go([x EXCEPT !.g = @ + 1, !.n = c[1]], c[1]) ELSE Go(x, i + 1))
    ELSE IF x.v > 0 /\ e # 0 THEN Go([AddText(x, i) EXCEPT !.v = @ - 1, !.n = e], e)
    ELSE IF c # <<>> THEN
        LET r == Replace(SubSeq(x.u, c[2][1], c[2][2] - 1), 1, x.en, <<>>) y == AddText(x, i) IN
        IF r = <<>> THEN [x EXCEPT !.mode = 2]
        ELSE IF r[1] \in {CDATA_, RCDATA_} THEN Go([y EXCEPT !.cd = IF r[1] = CDATA_ THEN 1 ELSE 2, !.n = i], c[1])
        ELSE IF r[1] = IGNORE_ THEN Go([y EXCEPT !.g = 1, !.n = c[1]], c[1])
        ELSE Go([y EXCEPT !.v = @ + 1, !.n = c[1]], c[1])
    ELSE LET g == Tag(x.u, i) o == Top(x) # 0 /\ x.q[Top(x)].c \in Opaque IN
         IF g = <<>> \/ (o /\ (g[2] # ENDTAG \/ Element_(NameAt(x.u, g[3])) # x.q[Top(x)].c)) THEN Go(x, i + 1)
         ELSE Go(TagAt([AddText(x, i) EXCEPT !.n = g[1]], g, i), g[1])
\* what precedes the first zero
More(u) == SubSeq(u, 1, Until(u, 1, {0}) - 1)
Appended(x, u) == LET y == [x EXCEPT !.u = @ \o More(u)] IN Go(y, y.n)
Finished(x) == LET n == Len(x.u) + 1 IN [AddText(x, n) EXCEPT !.n = n, !.k = <<>>, !.mode = 1]
------------------------------------------------------------------------------
(* The tree of tokens. A token: <<"t", type, flags, sequence, end sequence,   *)
(* name, items>> or <<"u", encoding, sequence, address>>; items are characters *)
(* and tokens.                                                                *)
COMPLETE == 1 STARTING == 2 ENDING == 3
HASTOKENS == 1 HASTEXT == 2 TITLE == 4 BULLET == 8 ATTRIBUTE == 16
\* p: where in the source it comes from (from 0), OPEN: left open
OPEN == -9
Text(f, s, it) == [k |-> "t", ty |-> COMPLETE, f |-> f, s |-> s, e |-> 0, nm |-> <<>>, it |-> it, p |-> OPEN]
Raw(u) == [i \in 1..Len(u) |-> [k |-> "c", c |-> u[i], p |-> OPEN]] \o <<>>
Address(enc, s, u) == [k |-> "u", enc |-> enc, s |-> s, u |-> u, p |-> OPEN]
\* decoded text, without what delimits tokens; the source is from o on
Decoded(u, o) == LET x == Es!Dec(u, 1, 0) d == x[1] m == x[2]
                     last(i) == {j \in 1..Len(m) : m[j][2] <= i} n(i) == Cardinality(last(i))     \* points come in pairs: start and end of an entity
                     at(i) == IF n(i) = 0 THEN i ELSE IF n(i) % 2 = 1 THEN (IF m[n(i)][2] = i THEN m[n(i)][1] ELSE OPEN) ELSE m[n(i)][1] + i - m[n(i)][2] IN
    [i \in 1..Len(d) |-> [k |-> "c", c |-> IF d[i] \in {18, 19} THEN 65533 ELSE d[i], p |-> IF at(i - 1) = OPEN THEN OPEN ELSE o - 1 + at(i - 1)]] \o <<>>
AllSp(u) == \A i \in 1..Len(u) : Sp(u[i])
Toks(it) == IF \E i \in 1..Len(it) : it[i].k # "c" THEN HASTOKENS ELSE 0
\* a tag, with its attributes from number m on, from position o on
RECURSIVE TagItems(_, _, _, _)
TagItems(x, j, m, o) ==
    LET s == x.q[j] v == s.at[m][2] w == SubSeq(x.u, v[1], v[2] - 1) kd == AttrKind(s.c, NameAt(x.u, s.at[m][1])) IN
    IF m > Len(s.at) THEN Raw(SubSeq(x.u, o, s.b - 1))
    ELSE IF v = None THEN TagItems(x, j, m + 1, o)
    ELSE IF AllSp(w) \/ kd = 0 THEN TagItems(x, j, m + 1, o)
    ELSE Raw(SubSeq(x.u, o, v[1] - 1)) \o <<IF kd = 1 THEN Address(1, j, Es!Dec(w, 1, 0)[1]) ELSE Text(HASTEXT + TITLE + ATTRIBUTE, j, Decoded(w, v[1]))>> \o TagItems(x, j, m + 1, v[2])
RECURSIVE CssItems(_, _, _)
CssItems(w, i, j) ==
    LET c == Comment(w, i) m == IF Has(w, i, <<60, 33, 45, 45>>) THEN i + 4 ELSE IF Has(w, i, <<45, 45, 62>>) THEN i + 3 ELSE 0
        a == CssImport(w, i) b == IF a # <<>> THEN a ELSE CssUri(w, i) IN
    IF i > Len(w) THEN <<>>
    ELSE IF w[i] \notin {47, 60, 45, 64, 117, 85} THEN Raw(<<w[i]>>) \o CssItems(w, i + 1, j)
    ELSE IF c # <<>> THEN Raw(SubSeq(w, i, c[1] - 1)) \o CssItems(w, c[1], j)
    ELSE IF m # 0 THEN Raw(SubSeq(w, i, m - 1)) \o CssItems(w, m, j)
    ELSE IF b # <<>> THEN Raw(SubSeq(w, i, b[2][1] - 1)) \o <<Address(2, j, CHOOSE y \in Es!Css(SubSeq(w, b[2][1], b[2][2] - 1), 1, <<>>) : TRUE)>> \o Raw(SubSeq(w, b[2][2], b[1] - 1)) \o CssItems(w, b[1], j)
    ELSE Raw(<<w[i]>>) \o CssItems(w, i + 1, j)
\* sequences i.. before h; void: is what follows an element without content a group of its own, too (it may be). <<items, has text>>
RECURSIVE Body(_, _, _, _)
Body(x, i, h, void) ==
    LET s == x.q[i] raw == SubSeq(x.u, s.a, s.b - 1)
        one(t, nx, vis) == LET r == Body(x, nx, h, void) IN <<t \o r[1], r[2], vis \cup r[3]>>
        from == IF i > 1 /\ x.q[i - 1].b # s.a THEN OPEN ELSE s.a - 1     \* or where what is left out starts
        tok(ty) == [Text(0, i, Raw(raw)) EXCEPT !.ty = ty, !.p = from]
        txt(d) == IF from = OPEN THEN <<[d[1] EXCEPT !.p = OPEN]>> \o Tail(d) ELSE d IN
    IF i >= h THEN <<<<>>, FALSE, {}>>
    ELSE CASE s.ty = TEXT -> LET r == Body(x, i + 1, h, void) IN <<txt(Decoded(raw, s.a)) \o r[1], r[2] \/ ~AllSp(raw), {i} \cup r[3]>>
      [] s.ty \in {ELEMENT, STARTTAG} ->
            LET it == TagItems(x, i, 1, s.a) st == s.ty = STARTTAG /\ s.c \notin Immediate
                t == [Text(Toks(it), i, it) EXCEPT !.ty = IF st THEN STARTING ELSE COMPLETE, !.p = from, !.e = IF st THEN s.e ELSE 0, !.nm = IF st THEN SubSeq(x.u, s.nm[1], s.nm[2] - 1) ELSE <<>>]
                lim == IF s.e > i /\ s.e < h THEN s.e ELSE h
                to == IF lim > Len(x.q) THEN Len(x.u) + 1 ELSE x.q[lim].a
                w == SubSeq(x.u, s.b, to - 1) first == IF i + 1 < lim THEN i + 1 ELSE 0
                css == CssItems(w, 1, first)
                grp == Body(x, i + 1, lim, void)
                fl == (IF s.c \in Heading \cup {"dt", "title"} THEN TITLE ELSE 0) + (IF s.c \in Lists THEN BULLET ELSE 0) IN
            IF s.ty = STARTTAG /\ s.c \in Verbatim THEN one(<<t>> \o (IF w = <<>> THEN <<>> ELSE IF s.c = "style" THEN <<Text(Toks(css), first, css)>> ELSE <<Text(0, first, Raw(w))>>), lim, {i})
            ELSE IF s.ty = STARTTAG /\ s.c \in Group /\ (s.c \in Immediate => void) THEN one(<<t, Text(fl + Toks(grp[1]) + (IF grp[2] THEN HASTEXT ELSE 0), first, grp[1])>>, lim, {i} \cup grp[3])
            ELSE one(<<t>>, i + 1, {i})
      [] s.ty = ENDTAG -> one(<<tok(ENDING)>>, i + 1, {i})
      [] OTHER -> one(<<tok(COMPLETE)>>, i + 1, {i})
Tree(x, void) == LET b == Body(x, 1, Len(x.q) + 1, void) IN Text(Toks(b[1]) + (IF b[2] THEN HASTEXT ELSE 0), IF x.q = <<>> THEN 0 ELSE 1, b[1])
\* what a tree stands for: <<kind, characters>>, kind 0 as they are, 1 text, 2 attribute, 3 style sheet's address
RECURSIVE Linked(_), LinkedAll(_, _, _)
LinkedAll(it, i, f) == IF i > Len(it) THEN <<>>
    ELSE IF it[i].k = "c" THEN <<<<IF f \div 2 % 2 = 0 THEN 0 ELSE IF f >= 16 THEN 2 ELSE 1, <<it[i].c>>>>>> \o LinkedAll(it, i + 1, f)
    ELSE Linked(it[i]) \o LinkedAll(it, i + 1, f)
Linked(t) == IF t.k = "u" THEN <<<<IF t.enc = 1 THEN 2 ELSE IF t.enc = 2 THEN 3 ELSE 0, t.u>>>> ELSE LinkedAll(t.it, 1, t.f)
\* where the spelling of characters u (from j on) ends in o; 0 if it is not there
RECURSIVE Spelt(_, _, _, _, _)
Spelt(o, i, u, j, k) ==
    IF j > Len(u) THEN i
    ELSE IF i > Len(o) THEN 0
    ELSE IF k \in {1, 2} THEN
        (IF o[i] # 38 THEN (IF o[i] = u[j] /\ o[i] \notin Es!Meta(2 - k, 1) THEN Spelt(o, i + 1, u, j + 1, k) ELSE 0)
         ELSE LET e == Es!End(o, i + 1) s == IF e = 0 THEN <<>> ELSE Es!Stands(SubSeq(o, i + 1, e - 1)) IN
              IF s = <<>> THEN 0 ELSE IF Has(u, j, s[1]) THEN Spelt(o, e + 1, u, j + Len(s[1]), k) ELSE 0)
    ELSE IF k = 3 /\ o[i] = 92 THEN
        LET n == IF i < Len(o) /\ Es!IsHex(o, i + 1) THEN Es!HexRun(o, i + 1, 0) ELSE 1
            d == Es!Css(SubSeq(o, i, Min2(i + n, Len(o))), 1, <<>>) sp == n > 1 /\ C(o, i + n + 1) = 32 IN
        IF d = {<<u[j]>>} THEN Spelt(o, IF sp THEN i + n + 2 ELSE i + n + 1, u, j + 1, k) ELSE 0
    ELSE IF o[i] = u[j] /\ (k = 3 => o[i] \notin Es!Meta(3, 1)) THEN Spelt(o, i + 1, u, j + 1, k) ELSE 0
RECURSIVE SpeltAll(_, _, _, _)
SpeltAll(o, i, l, m) == IF m > Len(l) THEN i = Len(o) + 1 ELSE LET e == Spelt(o, i, l[m][2], 1, l[m][1]) IN e # 0 /\ SpeltAll(o, e, l, m + 1)
------------------------------------------------------------------------------
\* what the driver reports
Attrs_(at) == <<Len(at)>> \o PPs(at, 0)
OutSeq(s) == <<s.ty, s.a - 1, s.b - 1, s.pa - 1>> \o
    CASE s.ty = STARTTAG -> <<Code(s.c)>> \o P0(s.nm, 0) \o Attrs_(s.at) \o <<s.e - 1>>
      [] s.ty = ELEMENT -> <<Code(s.c)>> \o P0(s.nm, 0) \o Attrs_(s.at)
      [] s.ty = ENDTAG -> <<Code(s.c)>> \o P0(s.nm, 0) \o <<s.e - 1>>
      [] s.ty = DECLARATION -> P0(s.nm, 0) \o Attrs_(s.at)
      [] s.ty \in {COMMENT, INSTRUCTION} -> P0(s.nm, 0)
      [] OTHER -> <<>>
Out(x) == IF x.mode = 2 THEN <<EXC>> ELSE <<x.cs, Len(x.q)>> \o Concat([i \in 1..Len(x.q) |-> OutSeq(x.q[i])])
RECURSIVE OutTok(_)
OutTok(t) == IF t.k = "c" THEN <<t.c>> ELSE <<-1>> \o
    (IF t.k = "u" THEN <<4, t.enc, t.s - 1>> \o t.u
     ELSE <<t.ty, t.f, t.s - 1>> \o (IF t.ty = STARTING THEN <<t.e - 1, Len(t.nm)>> \o t.nm ELSE <<>>) \o Concat([i \in 1..Len(t.it) |-> OutTok(t.it[i])])) \o <<-2>>
\* as the tree, but with positions: for a character, where it is in the source, and 0 (the same place as the source's)
RECURSIVE Places(_)
Places(t) == Concat([i \in 1..Len(t.it) |-> IF t.it[i].k = "c" THEN <<t.it[i].p, IF t.it[i].p = OPEN THEN OPEN ELSE 0>> ELSE <<t.it[i].p, -1>> \o (IF t.it[i].k = "u" THEN <<>> ELSE Places(t.it[i])) \o <<-2>>])
Alike(o, w) == Len(o) = Len(w) /\ \A i \in 1..Len(w) : w[i] = OPEN \/ o[i] = w[i]
Visited(x, void) == Body(x, 1, Len(x.q) + 1, void)[3]
Frames(x, void) == \E i \in Visited(x, void) : x.q[i].ty \in {ELEMENT, STARTTAG} /\ x.q[i].c = "frameset"
Traits(a) ==  \* 1: an element's kind, 2: which elements it may contain (codes from -3), 3: what an attribute of it is
    LET el(k) == CASE k = -1 -> "?" [] k = -2 -> "PCDATA" [] k = -3 -> "CDATA" [] k = 0 -> "" [] OTHER -> Names[k] c == el(a[2]) B(x) == IF x THEN 1 ELSE 0 IN
    CASE a[1] = 1 -> <<IF c \in Immediate THEN 2 ELSE IF c \in EndOptional THEN 1 ELSE 0, B(c \in FontStyle), B(c \in Phrase), B(c \in Special), B(c \in FormCtrl), B(c \in Inline), B(c \in Heading), B(c \in Lists),
                       B(c \in {"pre", "listing"}), B(c \in Block), B(c \in Flow), B(c \in HeadContent), B(c \in HeadMisc), B(c \in PreExclusion), B(c \in HtmlContent), B(c \in Group)>>
      [] a[1] = 2 -> [i \in 1..(Len(Names) + 4) |-> B(MayContain(c, el(i - 4)))] \o <<>>
      [] OTHER -> LET n == Lower(Drop(a, 2)) IN <<B(Listed(Uris, c, n)), B(n = <<116, 105, 116, 108, 101>> \/ Listed(Texts_, c, n))>>
HStart(a) == {New(a[1])}
HEval(x, op, a) ==
    CASE op \in {"append", "assign"} -> LET y == Appended(IF op = "assign" THEN New(x.t) ELSE x, a) z == IF op = "assign" /\ y.mode # 2 THEN Finished(y) ELSE y IN {[r |-> Out(z), s |-> z]}
      [] op = "finalize" -> LET y == Finished(x) IN {[r |-> Out(y), s |-> y]}
      [] op = "clear" -> {[r |-> Out(New(x.t)), s |-> New(x.t)]}
      [] op = "traits" -> {[r |-> Traits(a), s |-> x]}
      [] op = "parse" ->   \* 1: frames allowed, 1: cancelled by the user. Then: progress as it should be, the tree
            {[r |-> IF a[2] = 1 /\ x.q # <<>> THEN <<-2>> ELSE IF a[1] = 0 /\ Frames(x, void) THEN <<-1>> ELSE <<1>> \o OutTok(Tree(x, void)), s |-> x] : void \in BOOLEAN}
      [] op = "linked" ->  \* 1: parsed like this; the source as rebuilt
            IF \E void \in BOOLEAN : SpeltAll(Drop(a, 1), 1, Linked(Tree(x, void)), 1) THEN {[r |-> <<>>, s |-> x]} ELSE {}
      [] op = "placed" ->  \* 1: parsed like this; where each part of the tree comes from
            IF \E void \in BOOLEAN : Alike(Drop(a, 1), Places(Tree(x, void))) THEN {[r |-> <<>>, s |-> x]} ELSE {}
      [] OTHER -> {}
=============================================================================
