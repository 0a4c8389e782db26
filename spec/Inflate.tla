------------------------------ MODULE Inflate ------------------------------
(* Decoding of zlib streams (RFC 1950, 1951).                                  *)
(* Inflate(z): st is "done", "short" (z ends too early) or "bad"; out is what  *)
(* was decoded; n how many bytes of z were used (when done).                   *)
EXTENDS Bytes, SequencesExt
Bit(z, p) == (z[p \div 8 + 1] \div (2 ^ (p % 8))) % 2            \* p from 0
RECURSIVE Bits(_, _, _)
Bits(z, p, n) == IF n = 0 THEN 0 ELSE Bit(z, p) + 2 * Bits(z, p + 1, n - 1)
Has(z, p, n) == p + n <= 8 * Len(z)
\* canonical Huffman code of code lengths (of symbols 0, 1, ..)
Code(lens) == [cnt |-> [n \in 1..15 |-> Len(SelectSeq(lens, LAMBDA x : x = n))] \o <<>>,
               sym |-> FlattenSeq([n \in 1..15 |-> SelectSeq([i \in 1..Len(lens) |-> i - 1], LAMBDA i : lens[i + 1] = n)])]
\* over- and under-subscription
RECURSIVE Left(_, _, _)
Left(c, n, left) == IF left < 0 THEN left ELSE IF n > 15 THEN left ELSE Left(c, n + 1, 2 * left - c.cnt[n])
Total(c) == Len(c.sym)
\* one symbol: <<symbol, position behind it>>; symbol -1: input ends, -2: no such code
RECURSIVE Sym(_, _, _, _, _, _, _)
Sym(z, c, p, n, code, first, index) ==
    IF n > 15 THEN <<-2, p>> ELSE IF ~Has(z, p, 1) THEN <<-1, p>>
    ELSE LET k == code + Bit(z, p) IN
         IF k - c.cnt[n] < first THEN <<c.sym[index + k - first + 1], p + 1>>
         ELSE Sym(z, c, p + 1, n + 1, 2 * k, 2 * (first + c.cnt[n]), index + c.cnt[n])
Symbol(z, c, p) == Sym(z, c, p, 1, 0, 0, 0)
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenBits == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577>>
DistBits == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
Res(st, p, out) == [st |-> st, p |-> p, out |-> out]
RECURSIVE Symbols(_, _, _, _, _, _)
Symbols(z, lc, dc, p, out, win) ==
    LET s == Symbol(z, lc, p) IN
    IF s[1] = -1 THEN Res("short", p, out) ELSE IF s[1] = -2 THEN Res("bad", p, out)
    ELSE IF s[1] < 256 THEN Symbols(z, lc, dc, s[2], Append(out, s[1]), win)
    ELSE IF s[1] = 256 THEN Res("more", s[2], out)
    ELSE IF s[1] > 285 THEN Res("bad", p, out)
    ELSE LET i == s[1] - 256 lb == LenBits[i] IN
         IF ~Has(z, s[2], lb) THEN Res("short", p, out)
         ELSE LET len == LenBase[i] + Bits(z, s[2], lb) d == Symbol(z, dc, s[2] + lb) IN
              IF d[1] = -1 THEN Res("short", p, out) ELSE IF d[1] < 0 \/ d[1] > 29 THEN Res("bad", p, out)
              ELSE LET db == DistBits[d[1] + 1] IN
                   IF ~Has(z, d[2], db) THEN Res("short", p, out)
                   ELSE LET dist == DistBase[d[1] + 1] + Bits(z, d[2], db) n == Len(out) IN
                        IF dist > n \/ dist > win THEN Res("bad", p, out)
                        ELSE Symbols(z, lc, dc, d[2] + db, out \o [k \in 1..len |-> out[n - dist + ((k - 1) % dist) + 1]], win)
FixedL == Code([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8] \o <<>>)
FixedD == Code([i \in 1..30 |-> 5] \o <<>>)
Order == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
\* code lengths of a dynamic block
RECURSIVE Lengths(_, _, _, _, _)
Lengths(z, c, p, n, lens) ==
    IF Len(lens) > n THEN [st |-> "bad", p |-> p, lens |-> lens] ELSE IF Len(lens) = n THEN [st |-> "more", p |-> p, lens |-> lens]
    ELSE LET s == Symbol(z, c, p) IN
         IF s[1] = -1 THEN [st |-> "short", p |-> p, lens |-> lens] ELSE IF s[1] = -2 THEN [st |-> "bad", p |-> p, lens |-> lens]
         ELSE IF s[1] < 16 THEN Lengths(z, c, s[2], n, Append(lens, s[1]))
         ELSE LET b == IF s[1] = 16 THEN 2 ELSE IF s[1] = 17 THEN 3 ELSE 7 IN
              IF ~Has(z, s[2], b) THEN [st |-> "short", p |-> p, lens |-> lens]
              ELSE IF s[1] = 16 /\ lens = <<>> THEN [st |-> "bad", p |-> p, lens |-> lens]
              ELSE Lengths(z, c, s[2] + b, n, lens \o Fill(IF s[1] = 16 THEN lens[Len(lens)] ELSE 0, (IF s[1] = 18 THEN 11 ELSE 3) + Bits(z, s[2], b)))
\* complete, or a single code of one bit (or none, of distances)
Usable(c, none) == Left(c, 1, 1) = 0 \/ (Left(c, 1, 1) > 0 /\ ((Total(c) = 1 /\ c.cnt[1] = 1) \/ (none /\ Total(c) = 0)))
Dynamic(z, p, out, win) ==
    IF ~Has(z, p, 14) THEN Res("short", p, out)
    ELSE LET nl == Bits(z, p, 5) + 257 nd == Bits(z, p + 5, 5) + 1 nc == Bits(z, p + 10, 4) + 4 IN
         IF nl > 286 \/ nd > 30 THEN Res("bad", p, out)
         ELSE IF ~Has(z, p + 14, 3 * nc) THEN Res("short", p, out)
         ELSE LET cl == Code([i \in 1..19 |-> LET k == CHOOSE k \in 1..19 : Order[k] = i - 1 IN IF k <= nc THEN Bits(z, p + 14 + 3 * (k - 1), 3) ELSE 0] \o <<>>) IN
              IF Left(cl, 1, 1) # 0 THEN Res("bad", p, out)
              ELSE LET x == Lengths(z, cl, p + 14 + 3 * nc, nl + nd, <<>>) IN
                   IF x.st # "more" THEN Res(x.st, p, out)
                   ELSE IF x.lens[257] = 0 THEN Res("bad", p, out)
                   ELSE LET lc == Code(SubSeq(x.lens, 1, nl)) dc == Code(SubSeq(x.lens, nl + 1, nl + nd)) IN
                        IF ~Usable(lc, FALSE) \/ ~Usable(dc, TRUE) THEN Res("bad", p, out) ELSE Symbols(z, lc, dc, x.p, out, win)
Stored(z, p, out) ==
    LET q == (p + 7) \div 8 IN
    IF Len(z) < q + 4 THEN Res("short", p, out)
    ELSE LET n == z[q + 1] + 256 * z[q + 2] IN
         IF z[q + 3] # 255 - z[q + 1] \/ z[q + 4] # 255 - z[q + 2] THEN Res("bad", p, out)
         ELSE IF Len(z) < q + 4 + n THEN Res("short", p, out \o Drop(z, q + 4)) ELSE Res("more", 8 * (q + 4 + n), out \o Slice(z, q + 4, n))
RECURSIVE DeflateBlocks(_, _, _, _)
DeflateBlocks(z, p, out, win) ==
    IF ~Has(z, p, 3) THEN Res("short", p, out)
    ELSE LET t == Bits(z, p + 1, 2)
             x == CASE t = 0 -> Stored(z, p + 3, out) [] t = 1 -> Symbols(z, FixedL, FixedD, p + 3, out, win) [] t = 2 -> Dynamic(z, p + 3, out, win) [] OTHER -> Res("bad", p, out) IN
         IF x.st # "more" THEN x ELSE IF Bit(z, p) = 1 THEN Res("done", x.p, x.out) ELSE DeflateBlocks(z, x.p, x.out, win)
Adler(b) == LET t == FoldLeft(LAMBDA u, c : <<(u[1] + c) % 65521, (u[2] + u[1] + c) % 65521>>, <<1, 0>>, b) IN
    <<t[2] \div 256, t[2] % 256, t[1] \div 256, t[1] % 256>>
Inflate(z) ==
    IF Len(z) < 2 THEN [st |-> "short", out |-> <<>>, n |-> Len(z)]
    ELSE IF (256 * z[1] + z[2]) % 31 # 0 \/ z[1] % 16 # 8 \/ z[1] \div 16 > 7 \/ (z[2] \div 32) % 2 = 1 THEN [st |-> "bad", out |-> <<>>, n |-> 0]
    ELSE LET x == DeflateBlocks(z, 16, <<>>, 2 ^ (8 + z[1] \div 16)) q == (x.p + 7) \div 8 IN
         IF x.st # "done" THEN [st |-> x.st, out |-> x.out, n |-> Len(z)]
         ELSE LET c == Slice(z, q, 4) ad == Adler(x.out) IN
              [st |-> IF c = ad THEN "done" ELSE IF Len(c) < 4 THEN "short" ELSE "bad", out |-> x.out, n |-> q + 4]
ASSUME LET x == Inflate(<<120, 218, 75, 76, 74, 78, 132, 33, 0, 29, 224, 4, 153>>) IN x.st = "done" /\ x.out = [i \in 1..12 |-> 97 + ((i - 1) % 3)]
=============================================================================
