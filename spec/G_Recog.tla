------------------------------ MODULE G_Recog ------------------------------
(* The recognizers, each with all texts made of the pieces of its format, in *)
(* their order and out of it.                                                *)
EXTENDS Parser
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Starts == {<<0, 17>>}
\* nodes 0..9 digits, 10..15 letters a..f, 16 space
D == [i \in 1..10 |-> <<CU, 0, 47 + i>>] \o [i \in 1..6 |-> <<CU, 0, 96 + i>>] \o <<<<SPACE, 0>>>>
Ten == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>
Hexes == Ten \o <<10, 11, 12, 13, 14, 15>>
Num == <<INT10>> \o Ten
Chr(x) == <<CU, 0, x>>
Hosts == <<Chr(46), <<IPV4>> \o Ten \o <<17>>, Chr(58), <<IPV6>> \o Hexes \o <<19, -1, -1>>, <<DNSCHAR, 0>>, <<DNS, 0, 21, 17>>>>   \* 17..22; addresses 18, 20, names 22
R == [ipv6 |-> <<Chr(58), Chr(37), <<SCOPECHAR>>, <<IPV6>> \o Hexes \o <<17, 18, 19>>>>,
      dns |-> <<<<DNSCHAR, 0>>, Chr(46), <<DNS, 0, 17, 18>>>>, dns1 |-> <<<<DNSCHAR, 0>>, Chr(46), <<DNS, 1, 17, 18>>>>,
      path |-> <<<<PATHCHAR>>, Chr(63), Chr(35), <<URLPATH, 17, 18, 19>>>>,
      url |-> Hosts \o <<<<STR, 104, 116, 116, 112>>, <<STR, 102, 116, 112>>, <<STR, 109, 97, 105, 108, 116, 111>>, <<STR, 102, 105, 108, 101>>, Chr(58), Chr(47), <<USERCHAR>>, <<ITER, 29, 1, -1, 1>>,
                         <<PASSCHAR>>, <<ITER, 31, 1, -1, 1>>, Chr(64), Chr(91), Chr(93), Num, <<PATHCHAR>>, Chr(63), Chr(35), <<URLPATH, 37, 38, 39>>,
                         <<URL, 23, 24, 25, 26, 27, 28, 30, 32, 33, 34, 35, 18, 20, 22, 36, 40>>>>,
      email |-> Hosts \o <<<<USERCHAR>>, <<ITER, 23, 1, -1, 1>>, Chr(64), Chr(91), Chr(93), <<EMAIL, 24, 25, 26, 27, 18, 20, 22>>>>,
      emoticon |-> <<<<STR, 58, 47>>, <<SET, 0, 79>>, <<SET, 0, 58, 59>>, <<SET, 0, 45>>, <<SET, 0, 41, 40>>, <<EMOTICON, 17, 18, 19, 20, 21>>>>,
      time |-> <<Num, Num, Num, Num, <<SET, 0, 58, 46>>, Chr(46), <<TIME, 17, 18, 19, 20, 21, 22>>>>,
      time2 |-> <<Num, Num, <<SET, 0, 58, 46>>, <<TIME, 17, 18, -1, -1, 19, -1>>>>,
      angle |-> <<Num, Chr(42), Num, Chr(39), Num, Chr(34), Chr(46), Num, <<SEQ, 23, 24>>, <<ANGLE, 17, 18, 19, 20, 21, 22, 25>>>>,
      phone |-> <<<<SET, 0, 49, 50>>, Chr(43), <<SET, 0, 40, 91>>, <<SET, 0, 41, 93>>, Chr(45), <<PHONE, 17, 18, 19, 20, 21, 16>>>>,
      phone0 |-> <<<<SET, 0, 49, 50>>, <<PHONE, 17, -1, -1, -1, -1, -1>>>>,
      iban |-> <<<<IBAN, 16>>>>, creditor |-> <<<<CREDITOR, 16>>>>, si |-> <<<<SIREF, 16>>>>,
      formula |-> <<<<STR, 78, 97>>, Chr(72), <<BRANCH, 17, 18>>, <<SET, 0, 50>>, <<SET, 0, 43, 45>>, <<FORMULA, 19, 20, 21>>>>]
Masks == [d1 |-> 1, d2 |-> 2, d4 |-> 4, d8 |-> 8, d16 |-> 16, d32 |-> 32, d64 |-> 64, d127 |-> 127, d33 |-> 33, d12 |-> 12]
Names == {"ipv6", "dns", "dns1", "path", "url", "email", "emoticon", "time", "time2", "angle", "phone", "phone0", "iban", "creditor", "si", "formula"} \cup DOMAIN Masks
Table0(k) == D \o IF k \in DOMAIN Masks THEN <<Num, Num, Num, <<SET, 0, 46, 47>>, <<DATE, Masks[k], 17, 18, 19, 20, 16>>>> ELSE R[k]
Flat(n) == LET RECURSIVE F(_) F(m) == IF m = <<>> THEN <<>> ELSE <<Len(Head(m))>> \o Head(m) \o F(Tail(m)) IN F(n)
\* sequences of pieces, and sequences with a piece of each set
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
UpTo(P, n) == {Cat(w) : w \in UNION {[1..i -> P] : i \in 1..n}}
RECURSIVE Each(_)
Each(s) == IF s = <<>> THEN {<<>>} ELSE {x \o y : x \in Head(s), y \in Each(Tail(s))}
C1(S) == {<<x>> : x \in S}
Nothing == {<<>>}
Host0 == {<<97>>, <<49, 46, 50, 46, 51, 46, 52>>, <<91, 58, 58, 49, 93>>, <<91, 49, 46, 50, 46, 51, 46, 52, 93>>, <<91, 58, 58, 49>>, <<45>>, <<97, 46, 98, 46>>, <<>>}
Digits2(k) == <<48 + (k \div 10), 48 + (k % 10)>>
Countries == {<<a, b>> : a, b \in 65..90} 
Bban0(n, x) == [i \in 1..n |-> IF (i % 3) = 0 THEN x ELSE 48 + (i % 10)]
IbanTexts == UNION {LET n == IbanLength(c[1], c[2]) IN
    IF n = 0 THEN {} ELSE UNION {LET b == Bban0(n - 4, x) k == 98 - Mod97(b \o c \o <<48, 48>>, 0) k0 == IbanCheck(c[1], c[2]) IN
        {c \o (IF k0 = <<>> THEN Digits2(k) ELSE k0) \o b, c \o Digits2((k + 1) % 100) \o b, c \o (IF k0 = <<>> THEN Digits2(k) ELSE k0) \o SubSeq(b, 1, n - 5)} : x \in {48, 90}} : c \in Countries}
CreditorTexts == UNION {LET b == Bban0(n, x) k == 98 - Mod97(b \o <<82, 70, 48, 48>>, 0) IN {<<82, 70>> \o Digits2(k) \o b, <<82, 70>> \o Digits2((k + 1) % 100) \o b, <<82, 70>> \o Digits2(k) \o <<32>> \o b \o <<32>>} : n \in 0..22, x \in {48, 90}}
SiParts == {<<49, 57>>, <<49, 56>>, <<48>>, <<54, 48>>, <<52, 53>>}
SiTexts == {<<83, 73>> \o Digits2(m) \o p : m \in 0..99, p \in SiParts \cup Each(<<SiParts, {<<45>>}, SiParts>>) \cup Each(<<SiParts, {<<45>>}, SiParts, {<<45>>}, SiParts>>)}
Field == {<<50>>, <<49, 51>>, <<51, 48>>, <<51, 49>>}
Texts(k) ==
    CASE k = "ipv6" -> UpTo({<<49>>, <<58>>, <<102, 58>>, <<49, 58, 49, 58, 49, 58>>}, Most + 2) \cup Each(<<{<<58, 58>>, <<49, 58, 58>>}, {<<37>>}, {<<97>>, <<45>>, <<>>}>>)
      [] k \in {"dns", "dns1"} -> UpTo(C1({97, 45, 46}), Most + 1)
      [] k = "path" -> UpTo(C1({97, 63, 35, 32}), Most)
      [] k = "url" -> Each(<<{<<>>, <<104, 116, 116, 112, 58, 47, 47>>, <<102, 116, 112, 58, 47, 47>>, <<109, 97, 105, 108, 116, 111, 58>>, <<102, 105, 108, 101, 58, 47, 47>>, <<104, 116, 116, 112, 58, 47>>},
                             {<<>>, <<97, 64>>, <<97, 58, 98, 64>>, <<97, 58, 64>>, <<97, 58, 98>>}, Host0, {<<>>, <<58, 56>>, <<58>>, <<47, 120>>, <<63, 113, 35, 98>>, <<58, 56, 47>>}>>)
      [] k = "email" -> Each(<<{<<97>>, <<97, 46, 98>>, <<>>}, {<<64>>, <<>>, <<64, 64>>}, Host0>>)
      [] k = "emoticon" -> UpTo({<<79>>, <<58>>, <<45>>, <<41>>, <<40>>, <<58, 47>>}, Most)
      [] k \in {"time", "time2"} -> Each(<<{<<49>>, <<54, 49>>}, {<<58>>, <<46>>}, {<<53, 57>>, <<54, 48>>}, {<<58>>, <<46>>, <<>>}, {<<53, 57>>, <<54, 48>>, <<>>}, {<<>>, <<46, 53>>, <<46, 49, 48, 48, 48>>, <<46>>}>>)
      [] k = "angle" -> Each(<<{<<>>, <<49>>, <<49, 42>>, <<54, 48, 42>>}, {<<>>, <<49>>, <<49, 39>>, <<54, 48, 39>>}, {<<>>, <<49>>, <<54, 48>>, <<49, 34>>, <<34>>}, {<<>>, <<46, 53>>, <<46>>}>>)
      [] k \in {"phone"} -> UpTo(C1({49, 40, 41, 32, 45, 43, 93}), Most)
      [] k \in {"phone0"} -> UpTo(C1({49, 40, 32}), 3)
      [] k = "iban" -> IbanTexts
      [] k = "creditor" -> CreditorTexts
      [] k = "si" -> SiTexts
      [] k = "formula" -> UpTo({<<78, 97>>, <<72>>, <<50>>, <<43>>, <<45>>}, Most)
      [] OTHER -> IF k \in {"d8", "d16", "d32", "d64", "d33", "d12"} THEN Each(<<Field, {<<46>>, <<32, 47>>}, Field, {<<>>, <<46>>, <<32, 47>>}, {<<>>, <<49>>}>>)
                  ELSE Each(<<Field, {<<46>>, <<32, 47>>}, Field, {<<46>>, <<47, 32>>}, Field>>)
Name(s) == CHOOSE k \in Names : Table0(k) = s.n
Calls(s) == IF s.n = <<>> THEN {<<"nodes", Flat(Table0(k))>> : k \in Names}
    ELSE IF s.u = <<>> THEN {<<"text", t>> : t \in Texts(Name(s)) \ {<<>>}}
    ELSE {<<"match", <<Len(s.n) - 1, 0, Len(s.u), 0, 0>>>>}
INSTANCE GenBase WITH Start <- PStart, Eval <- PEval
------------------------------------------------------------------------------
\* What the formats promise, said independently of how they are recognized
Match(k, t) == LET n == Table0(k) IN M(n, 0, t, Len(n) - 1, 0, Len(t), 0)
RECURSIVE Hex0(_)
Hex0(x) == (IF x < 16 THEN <<>> ELSE Hex0(x \div 16)) \o <<IF (x % 16) < 10 THEN 48 + (x % 16) ELSE 87 + (x % 16)>>
Join(w) == LET RECURSIVE J(_) J(i) == IF i > Len(w) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<58>>) \o Hex0(w[i]) \o J(i + 1) IN J(1)
Words == {[i \in 1..8 |-> IF i \in z THEN 0 ELSE 4096 * i + i] : z \in SUBSET (1..8)}
\* an address means the same however its zeros are written
Addresses == \A w \in Words : \A i \in 0..8 : \A j \in i..8 :
    (j = i /\ i > 0) \/ (\E k \in (i + 1)..j : w[k] # 0) \/
    LET t == IF j = i THEN Join(w) ELSE Join(SubSeq(w, 1, i)) \o <<58, 58>> \o Join(SubSeq(w, j + 1, 8)) r == Match("ipv6", t) IN
    r.ok /\ r.e = Len(t) /\ \A k \in 1..8 : r.v[k][5] = w[k]
\* a reference has one control number, and no other digit or number can replace a digit
Controls == /\ \A n \in {7, 11}, x \in {48, 57, 90} : LET b == Bban0(n, x) V == {k \in 2..98 : Mod97(b \o <<78, 79>> \o Digits2(k), 0) = 1} IN
                 Cardinality(V) = 1 /\ \A k \in V, i \in 1..n, y \in 48..57 : y # b[i] => Mod97([b EXCEPT ![i] = y] \o <<78, 79>> \o Digits2(k), 0) # 1
            /\ \A p \in 0..99 : Cardinality({d \in 48..57 : Checked(Digits2(p) \o <<d>>)}) = 1
Inv == /\ st.n = <<>> => Addresses /\ Controls
       /\ st.u # <<>> =>
            LET k == Name(st) r == Match(k, st.u) t == SubSeq(st.u, 1, r.e) IN
            r.ok =>
              /\ \A j \in 1..Len(r.v) : r.v[j][2] = 1 => 0 <= r.v[j][3] /\ r.v[j][3] <= Max2(r.v[j][4], r.v[j][3]) /\ (r.e # Wild => r.v[j][4] <= r.e)
              /\ k \in {"dns", "dns1"} => /\ t[1] \notin {45, 46} /\ \A i \in 1..(Len(t) - 1) : ~(t[i] \in {45, 46} /\ t[i + 1] = 46) /\ ~(t[i] = 46 /\ t[i + 1] = 45)
                                          /\ t[Len(t)] # 45 /\ (k = "dns" => t[Len(t)] # 46)
              /\ k = "ipv6" => ~(t[Len(t)] = 58 /\ (Len(t) = 1 \/ t[Len(t) - 1] # 58)) /\ \A i \in 1..(Len(t) - 2) : ~(t[i] = 58 /\ t[i + 1] = 58 /\ t[i + 2] = 58)
              /\ k \in {"phone", "phone0"} => t[Len(t)] \in {49, 41, 93}
              /\ k \in {"url", "email"} => \A i, j \in 1..Len(r.v) : i # j /\ r.v[i][2] = 1 /\ r.v[j][2] = 1 /\ r.v[i][1] < 1000 /\ r.v[j][1] < 1000 => r.v[i][4] <= r.v[j][3] \/ r.v[j][4] <= r.v[i][3]
=============================================================================
