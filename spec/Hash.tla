-------------------------------- MODULE Hash --------------------------------
(* S09. A hash object: m is what it hashed since it was last initialised; done *)
(* once finalised. Kind 1: CRC-32, 2: MD5, 3: SHA-1.                           *)
EXTENDS Digest
Start(a) == {[kind |-> a[1], m |-> <<>>, done |-> FALSE]}
DigestOf(k, m) == CASE k = 1 -> Crc(m) [] k = 2 -> Md5(m) [] OTHER -> Sha1(m)
Eval(s, op, a) ==
    CASE op = "hash" -> IF s.done THEN {} ELSE {[r |-> <<>>, s |-> [s EXCEPT !.m = @ \o a]]}
      [] op = "clear" -> {[r |-> <<>>, s |-> [s EXCEPT !.m = <<>>, !.done = FALSE]]}
      \* the digest, its size
      [] op = "final" -> IF s.done THEN {} ELSE LET d == DigestOf(s.kind, s.m) IN {[r |-> <<IF s.kind = 1 THEN 4 ELSE Len(d)>> \o d, s |-> [s EXCEPT !.done = TRUE]]}
      \* a CRC may be continued from the value of the part before
      [] op = "resume" -> IF s.kind # 1 \/ s.done THEN {} ELSE {[r |-> Crc(s.m), s |-> s]}
      \* through a stream whose device moved a[2] of a[1] bytes and got to state a[3]; the bytes read
      [] op = "sread" -> LET b == PatSeq(a[4], a[2]) IN IF s.done THEN {} ELSE {[r |-> <<a[2], a[3]>> \o b, s |-> [s EXCEPT !.m = @ \o b]]}
      [] op = "swrite" -> LET b == PatSeq(a[4], a[2]) IN IF s.done THEN {} ELSE {[r |-> <<a[2], a[3]>> \o b, s |-> [s EXCEPT !.m = @ \o b]]}
      \* digests as values: equal?, different?, their stored form, what is read back (nothing when the stream ends before)
      [] op = "value" -> LET n == a[1] x == Slice(a, 2, n) y == Slice(a, 2 + n, n) IN
            {[r |-> <<IF x = y THEN 1 ELSE 0, IF x = y THEN 0 ELSE 1>> \o x \o (IF a[2] = 1 THEN <<OK>> \o x ELSE <<EOF>>), s |-> s]}
      [] OTHER -> {}
=============================================================================
