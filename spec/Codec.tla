------------------------------- MODULE Codec -------------------------------
(* S08. Base64 and hexadecimal text: sessions that take data in pieces.       *)
(* pe: bytes not yet encoded; pd: base64 characters (0..64, 64 is the         *)
(* padding) not yet decoded; ph: a hexadecimal digit not yet decoded, or none. *)
EXTENDS Bytes
Alphabet == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 97 + i - 26 ELSE IF i < 62 THEN 48 + i - 52 ELSE IF i = 62 THEN 43 ELSE 47]
Value(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 97 + 26 ELSE IF c >= 48 /\ c <= 57 THEN c - 48 + 52
            ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE IF c = 61 THEN 64 ELSE -1
Block(b) ==       \* 1 to 3 bytes -> 4 characters
    LET v(i) == IF i <= Len(b) THEN b[i] ELSE 0 IN
    <<Alphabet[v(1) \div 4], Alphabet[(v(1) % 4) * 16 + v(2) \div 16],
      IF Len(b) > 1 THEN Alphabet[(v(2) % 16) * 4 + v(3) \div 64] ELSE 61, IF Len(b) > 2 THEN Alphabet[v(3) % 64] ELSE 61>>
Blocks(b) == [i \in 1..((Len(b) + 2) \div 3) |-> Block(Slice(b, 3 * (i - 1), 3))]
Enc(b) == [i \in 1..(4 * ((Len(b) + 2) \div 3)) |-> Block(Slice(b, 3 * ((i - 1) \div 4), 3))[1 + ((i - 1) % 4)]]
Full(b) == Take(b, 3 * (Len(b) \div 3))
\* with line breaks after every m blocks
EncLines(b, m) == LET bs == Blocks(b) IN Concat([i \in 1..Len(bs) |-> (IF i > 1 /\ (i - 1) % m = 0 THEN <<10>> ELSE <<>>) \o bs[i]])
Bytes4(q) == <<(q[1] * 4 + q[2] \div 16) % 256>> \o (IF q[3] = 64 THEN <<>> ELSE <<((q[2] % 16) * 16 + q[3] \div 4) % 256>>
             \o (IF q[4] = 64 THEN <<>> ELSE <<((q[3] % 4) * 64 + q[4]) % 256>>))
\* text up to the first zero character
Cut(t) == LET z == {i \in 1..Len(t) : t[i] = 0} IN IF z = {} THEN t ELSE Take(t, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
RECURSIVE Dec(_, _, _)          \* -> [out, rest (undecoded characters), last]
Dec(q, t, out) ==
    IF Len(q) = 4 THEN LET b == Bytes4(q) IN IF Len(b) < 3 THEN [out |-> out \o b, rest |-> <<>>, last |-> 1] ELSE Dec(<<>>, t, out \o b)
    ELSE IF t = <<>> THEN [out |-> out, rest |-> q, last |-> 0]
    ELSE Dec(IF Value(Head(t)) < 0 THEN q ELSE Append(q, Value(Head(t))), Tail(t), out)
Hex(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexEnc(b) == [i \in 1..(2 * Len(b)) |-> Hex(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
Digits(t) == SelectSeq([i \in 1..Len(t) |-> HexVal(t[i])], LAMBDA v : v >= 0)
Start(a) == {[pe |-> <<>>, pd |-> <<>>, ph |-> <<>>]}
Eval(s, op, a) ==
    CASE op = "enc" -> LET b == s.pe \o Drop(a, 2) IN              \* kind of string, last?, data
            IF a[2] = 1 THEN {[r |-> Enc(b), s |-> [s EXCEPT !.pe = <<>>]]} ELSE {[r |-> Enc(Full(b)), s |-> [s EXCEPT !.pe = Drop(b, Len(Full(b)))]]}
      [] op = "dec" -> LET x == Dec(s.pd, Cut(Tail(a)), <<>>) IN {[r |-> <<x.last>> \o x.out, s |-> [s EXCEPT !.pd = x.rest]]}
      [] op = "hexenc" -> {[r |-> HexEnc(Tail(a)), s |-> s]}
      [] op = "hexdec" -> LET t == Cut(Tail(a)) d == s.ph \o Digits(t) n == Len(d) \div 2
                              out == [i \in 1..n |-> 16 * d[2 * i - 1] + d[2 * i]] rest == Drop(d, 2 * n) IN
            \* complete or not; when nothing but separators came since the last byte, either will do
            {[r |-> <<c>> \o out, s |-> [s EXCEPT !.ph = rest]] :
                c \in IF rest # <<>> THEN {0} ELSE IF t # <<>> /\ HexVal(t[Len(t)]) >= 0 THEN {1} ELSE {0, 1}}
      \* announced most that coding n more would give: never less than it can be
      [] op = "bound" -> LET n == a[2] need == CASE a[1] = 1 -> 4 * ((Len(s.pe) + n + 2) \div 3) [] a[1] = 2 -> 3 * ((Len(s.pd) + n) \div 4)
                                                 [] a[1] = 3 -> 2 * n [] OTHER -> (Len(s.ph) + n) \div 2 IN
            IF a[3] >= need THEN {[r |-> <<>>, s |-> s]} ELSE {}
      [] op = "clear" -> {[r |-> <<>>, s |-> [pe |-> <<>>, pd |-> <<>>, ph |-> <<>>]]}
      [] OTHER -> {}
=============================================================================
