------------------------------ MODULE CacheAlg ------------------------------
(* The algorithm of a cached file, with a single block of B bytes, over a     *)
(* source that does not fail: src is the source's content; the block holds    *)
(* bytes [rs, re) of the file, c; mode is "empty", "loaded" or "dirty".       *)
EXTENDS Bytes
ANew(b, src, off) == [b |-> b, src |-> src, off |-> off, mode |-> "empty", rs |-> 0, c |-> <<>>]
Re(x) == x.rs + Len(x.c)
\* the file as seen through the cache
View(x) == IF x.mode = "empty" \/ x.c = <<>> THEN x.src ELSE Overwrite(x.src, x.rs, x.c)
Clean(x) == IF x.mode = "dirty" THEN [x EXCEPT !.src = IF x.c = <<>> THEN @ ELSE Overwrite(@, x.rs, x.c), !.mode = "loaded"] ELSE x
Drop1(x) == [Clean(x) EXCEPT !.mode = "empty"]
Load(x) == LET rs == x.off - (x.off % x.b) IN [x EXCEPT !.mode = "loaded", !.rs = rs, !.c = Slice(x.src, rs, x.b)]
RECURSIVE ARead(_, _, _)
ARead(x, n, out) ==        \* -> [x, out]
    LET in == x.mode # "empty" /\ x.rs <= x.off /\ x.off < Re(x)
        k == IF in THEN Min2(n, Re(x) - x.off) ELSE 0
        y == [x EXCEPT !.off = @ + k]
        o == out \o (IF in THEN Slice(x.c, x.off - x.rs, k) ELSE <<>>)
    IN IF in /\ k = n THEN [x |-> y, out |-> o]
       ELSE LET z == Clean(y)
                m == n - k
                \* whole blocks are read directly
                by == IF z.off \div z.b < (z.off + m) \div z.b THEN Min2(m - ((z.off + m) % z.b), Max2(0, Len(z.src) - z.off)) ELSE 0
                w == [z EXCEPT !.off = @ + by]
                o2 == o \o Slice(z.src, z.off, by)
                v == Load(w)
            IN IF m = by THEN [x |-> w, out |-> o2]
               ELSE IF Re(v) <= v.off THEN [x |-> v, out |-> o2]
               ELSE ARead(v, m - by, o2)
RECURSIVE AWrite(_, _)
AWrite(x, b) ==
    LET in == x.mode # "empty" /\ x.rs <= x.off /\ x.off < x.rs + x.b
        k == IF in THEN Min2(Len(b), x.rs + x.b - x.off) ELSE 0
        y == IF in THEN [x EXCEPT !.c = Overwrite(@, x.off - x.rs, Take(b, k)), !.off = @ + k, !.mode = "dirty"] ELSE x
        rest == Drop(b, k)
        m == Len(rest)
    IN IF in /\ m = 0 THEN y
       ELSE LET z == IF y.mode = "empty" THEN y ELSE Drop1(y)
                by == IF z.off \div z.b < (z.off + m) \div z.b THEN m - ((z.off + m) % z.b) ELSE 0
                w == IF by > 0 THEN [z EXCEPT !.src = Overwrite(@, z.off, Take(rest, by)), !.off = @ + by] ELSE z
            IN IF m = by /\ by > 0 THEN w ELSE AWrite(Load(w), Drop(rest, by))
ATruncate(x) ==
    LET y == [x EXCEPT !.src = IF x.off <= Len(@) THEN Take(@, x.off) ELSE Overwrite(@, x.off, <<>>)] IN
    IF Re(x) <= x.off THEN y ELSE IF x.rs <= x.off THEN [y EXCEPT !.c = Take(@, x.off - x.rs)] ELSE [y EXCEPT !.mode = "empty"]
=============================================================================
