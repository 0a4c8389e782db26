----------------------------- MODULE G_Charset -----------------------------
(* Every short text of code points at the boundaries of the encodings, and  *)
(* every short sequence of telling bytes, valid or not.                     *)
EXTENDS Charset
CONSTANTS Depth, Recent, Most
VARIABLES st, hist
Points == {65, 127, 128, 269, 2047, 2048, 8364, 65535, 65536, 1114111}
Octets == {65, 128, 141, 191, 192, 193, 194, 196, 224, 159, 160, 237, 240, 143, 144, 244, 245, 255}
Starts == {<<f, t>> : f \in {2, 3, 4, 5}, t \in {2, 3, 4, 5}}
EncS(cs, p) == Conv(4, cs, p)
Seqs(X, n) == UNION {[1..i -> X] : i \in 0..n}
Units(cs) == IF cs = 3 THEN {65, 55296, 56319, 56320, 57343, 57344} ELSE IF cs = 4 THEN {65, 55295, 55296, 57343, 57344, 1114111, 1114112, -1} ELSE Octets
Calls(s) ==
    LET txt == {EncS(s.f, p) : p \in Seqs(Points, Most)} \ {Bad}
        raw == Seqs(Units(s.f), IF s.f = 2 THEN Most + 1 ELSE Most) IN
    {<<"cat", <<0, Len(u), 1, Len(u)>> \o u>> : u \in txt \cup raw}
INSTANCE GenBase
Inv == \A p \in Seqs(Points, 2), cs \in {2, 3, 4} : LET e == EncS(cs, p) IN e # Bad /\ Conv(cs, 4, e) = p
=============================================================================
