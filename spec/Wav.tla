-------------------------------- MODULE Wav --------------------------------
(* S11. Records of wave files: their fields' layout; cues with what belongs to *)
(* them, as written, collected and removed. A type's fields are given as their *)
(* bytes in order (1 fmt, 2 data, 3 slnt, 4 cue, 5 ltxt, 6 labl, 7 note, 8     *)
(* RIFF). Lists of cues are in the arguments: 24 bytes, 16 bytes, and          *)
(* description, title and note, each following its length.                     *)
EXTENDS Rec, SequencesExt
Fmt == <<102, 109, 116, 32>> Data == <<100, 97, 116, 97>> Slnt == <<115, 108, 110, 116>> CueId == <<99, 117, 101, 32>>
Ltxt == <<108, 116, 120, 116>> Labl == <<108, 97, 98, 108>> NoteId == <<110, 111, 116, 101>> Riff == <<82, 73, 70, 70>>
List == <<76, 73, 83, 84>> Adtl == <<97, 100, 116, 108>> Wave == <<87, 65, 86, 69>>
TypeId(t) == <<Fmt, Data, Slnt, CueId, Ltxt, Labl, NoteId, Riff>>[t]
Fixed(t) == <<16, 0, 4, 0, 20, 4, 4, 4>>[t]
Payload(t, f) ==
    CASE t = 1 -> Take(f, 16) \o IF Len(f) > 16 THEN LE16(Len(f) - 16) \o Drop(f, 16) ELSE <<>>
      [] t = 4 -> LE32(Len(f) \div 24) \o f
      [] t \in {5, 6, 7} -> f \o IF Len(f) > Fixed(t) THEN <<0>> ELSE <<>>
      [] OTHER -> f
UpTo0(x) == LET z == {i \in 1..Len(x) : x[i] = 0} IN IF z = {} THEN x ELSE Take(x, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
\* what of the data tells all fields
Full(t, b) == Len(b) >= Fixed(t) /\ (t = 4 => Len(b) >= 4 /\ LenPrefix(b) <= 10000)
Parse(t, b) ==
    CASE t = 1 -> Take(b, 16) \o IF Len(b) < 18 THEN <<>> ELSE Slice(b, 18, FromLE(Slice(b, 16, 2)))
      [] t = 2 -> b
      [] t = 4 -> Slice(b, 4, 24 * Min2(LenPrefix(b), (Len(b) - 4) \div 24))
      [] t \in {5, 6, 7} -> Take(b, Fixed(t)) \o UpTo0(Drop(b, Fixed(t)))
      [] OTHER -> Take(b, 4)
Chunk(id, b) == id \o LE32(Len(b)) \o b \o Zeros(Len(b) % 2)
\* the chunks from p on that start before e: <<ok, <<id, start of data, size>>..>>
RECURSIVE WalkR(_, _, _, _)
WalkR(d, p, e, acc) ==
    IF p >= e THEN <<TRUE, acc>>
    ELSE IF p + 8 > Len(d) THEN <<FALSE, acc>>
    ELSE LET n == LenPrefix(Slice(d, p + 4, 4)) q == p + 8 + n + (n % 2) IN
         IF q > Len(d) THEN <<FALSE, acc>> ELSE WalkR(d, q, e, Append(acc, <<Slice(d, p, 4), p + 8, n>>))
Walk(d, p, e) == WalkR(d, p, e, <<>>)
\* the arguments' cues
RECURSIVE Cues(_)
Cues(a) == IF a = <<>> THEN <<>> ELSE
    LET n1 == a[41] n2 == a[42 + n1] n3 == a[43 + n1 + n2] IN
    <<[c |-> Take(a, 24), x |-> Slice(a, 24, 16), desc |-> Slice(a, 41, n1), title |-> Slice(a, 42 + n1, n2), note |-> Slice(a, 43 + n1 + n2, n3)]>>
    \o Cues(Drop(a, 43 + n1 + n2 + n3))
CuesBytes(v) ==
    Chunk(CueId, LE32(Len(v)) \o Concat([i \in 1..Len(v) |-> v[i].c])) \o
    Chunk(List, Adtl \o Concat([i \in 1..Len(v) |-> LET id == Take(v[i].c, 4) IN
        Chunk(Ltxt, Payload(5, id \o v[i].x \o v[i].desc)) \o
        (IF v[i].title = <<>> THEN <<>> ELSE Chunk(Labl, Payload(6, id \o v[i].title))) \o
        (IF v[i].note = <<>> THEN <<>> ELSE Chunk(NoteId, Payload(7, id \o v[i].note)))]))
IdLess(x, y) == \E i \in 1..4 : x[i] < y[i] /\ \A j \in (i + 1)..4 : x[j] = y[j]
\* collecting: <<ok, cues>>
Update(v, id, b) ==
    LET f == Parse(IF id = Ltxt THEN 5 ELSE 6, b) IN
    [i \in 1..Len(v) |-> IF Take(v[i].c, 4) # Take(f, 4) THEN v[i]
        ELSE IF id = Ltxt THEN [v[i] EXCEPT !.x = Slice(f, 4, 16), !.desc = Drop(f, 20)]
        ELSE IF id = Labl THEN [v[i] EXCEPT !.title = Drop(f, 4)] ELSE [v[i] EXCEPT !.note = Drop(f, 4)]]
CollectIn(d, q, n, v) ==
    LET w == Walk(d, q, q + n)
        good == w[1] /\ \A i \in 1..Len(w[2]) : LET c == w[2][i] IN c[2] + c[3] + (c[3] % 2) <= q + n
                    /\ (c[1] = Ltxt => c[3] >= 20) /\ (c[1] \in {Labl, NoteId} => c[3] >= 4) IN
    IF ~good THEN <<FALSE, v>>
    ELSE <<TRUE, FoldLeft(LAMBDA u, c : IF c[1] \in {Ltxt, Labl, NoteId} THEN Update(u, c[1], Slice(d, c[2], c[3])) ELSE u, v, w[2])>>
Collect(d, p, e) ==
    LET w == Walk(d, p, e) lists == SelectSeq(w[2], LAMBDA c : c[1] = List) cs == SelectSeq(w[2], LAMBDA c : c[1] = CueId)
        b == IF cs = <<>> THEN <<>> ELSE Slice(d, cs[1][2], cs[1][3])
        n == IF Len(b) < 4 THEN 0 ELSE LenPrefix(b)
        v0 == [i \in 1..n |-> [c |-> Slice(b, 4 + 24 * (i - 1), 24), x |-> Zeros(16), desc |-> <<>>, title |-> <<>>, note |-> <<>>]]
        v == SortSeq(v0, LAMBDA x, y : IdLess(x.c, y.c))
        good == w[1] /\ Len(cs) <= 1 /\ (cs # <<>> => Len(b) >= 4 /\ n <= 10000 /\ 4 + 24 * n <= Len(b)
                /\ Cardinality({Slice(b, 4 + 24 * (i - 1), 4) : i \in 1..n}) = n)
                /\ \A i \in 1..Len(lists) : lists[i][3] >= 4 IN
    IF ~good THEN <<FALSE, <<>>>>
    ELSE FoldLeft(LAMBDA u, c : IF ~u[1] \/ Slice(d, c[2], 4) # Adtl THEN u ELSE CollectIn(d, c[2] + 4, c[3] - 4, u[2]), <<TRUE, v>>, lists)
\* the rest when cues are removed: <<ok, bytes>>
RECURSIVE Without(_, _, _)
Without(d, p, e) ==
    LET w == Walk(d, p, e) IN
    IF ~w[1] THEN <<FALSE, <<>>>> ELSE
    FoldLeft(LAMBDA u, c :
        IF ~u[1] \/ c[1] \in {CueId, Ltxt, Labl, NoteId} THEN u
        ELSE IF c[1] \in {Riff, List} THEN
            IF c[3] < 4 THEN <<FALSE, <<>>>> ELSE
            LET x == Without(SubSeq(d, 1, c[2] + c[3] + (c[3] % 2)), c[2] + 4, c[2] + c[3]) IN
            IF x[2] = <<>> THEN <<x[1], u[2]>> ELSE <<x[1], u[2] \o Chunk(c[1], Slice(d, c[2], 4) \o x[2])>>
        ELSE <<TRUE, u[2] \o Chunk(c[1], Slice(d, c[2], c[3]))>>, <<TRUE, <<>>>>, w[2])
Lim(s, e) == IF e < 0 THEN Len(s.d) ELSE e
\* the block of RIFF kind WAVE: <<TRUE, where its data starts, size>> or <<not specified>>
RECURSIVE Content(_, _, _)
Content(d, p, e) ==
    IF p >= e THEN <<FALSE, TRUE>> ELSE IF p + 8 > Len(d) THEN <<FALSE, FALSE>>
    ELSE LET n == LenPrefix(Slice(d, p + 4, 4)) q == p + 8 + n + (n % 2) r == Slice(d, p, 4) = Riff IN
         IF r /\ n < 4 THEN <<FALSE, FALSE>>
         ELSE IF r /\ Slice(d, p + 8, 4) = Wave THEN <<TRUE, p + 8, n>>
         ELSE IF q > Len(d) \/ (r /\ p % 2 = 1) THEN <<FALSE, FALSE>> ELSE Content(d, q, e)
Lost(s, rs) == {[r |-> r, s |-> [s EXCEPT !.lost = TRUE]] : r \in rs}
WEval(s, op, a) ==
    CASE s.lost /\ op \notin {"seek", "dump"} -> {}
      [] op = "wput" -> LET t == Put(s, Chunk(TypeId(a[1]), Payload(a[1], Tail(a)))) IN {[r |-> <<OK, t.p>>, s |-> t]}
      [] op = "wget" -> IF s.p + 4 > Len(s.d) THEN Loose(s, <<>>) \cup Lost(s, {<<EXC>>}) ELSE
            LET n == Size(s, s.p) e == s.p + 4 + n + (n % 2) b == Slice(s.d, s.p + 4, n) IN
            IF e > Len(s.d) \/ ~Full(a[1], b) THEN Loose(s, <<>>) \cup Lost(s, {<<EXC>>})
            ELSE IF Tail(a) = Parse(a[1], b) THEN At(s, e, <<>>) ELSE {}
      [] op = "cues_put" -> LET t == Put(s, CuesBytes(Cues(a))) IN {[r |-> <<OK, t.p>>, s |-> t]}
      [] op = "cues_read" -> LET x == Collect(s.d, s.p, Lim(s, a[1])) IN
            IF ~x[1] THEN Lost(s, {<<0, 9999>>, <<1, 9999>>, <<EXC>>}) \cup {[r |-> <<b, p>>, s |-> [s EXCEPT !.p = p]] : b \in {0, 1}, p \in 0..(Len(s.d) + 8)}
            ELSE IF Cues(Tail(a)) = x[2] THEN {[r |-> <<1, s.p>>, s |-> s]} ELSE {}
      [] op = "cues_remove" -> LET x == Without(s.d, s.p, Lim(s, a[1])) IN
            IF ~x[1] THEN Lost(s, {<<0>>, <<1>>, <<EXC>>}) ELSE IF Tail(a) = x[2] THEN Lost(s, {<<1>>}) ELSE {}
      [] op = "content" -> LET x == Content(s.d, s.p, Lim(s, a[1])) IN
            IF x[1] THEN At(s, x[2] + 4, <<1, x[2] + x[3]>>) ELSE Loose(s, <<0, 0>>) \cup (IF x[2] THEN {} ELSE Loose(s, <<1, a[2]>>))
      [] OTHER -> Eval(s, op, a)
=============================================================================
