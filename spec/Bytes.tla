------------------------------- MODULE Bytes -------------------------------
(* Byte sequences: a byte is 0..255, a byte string a sequence of bytes.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
OK == 0     EOF == 1     FAIL == 2        \* stream states
EXC == -99                                \* "an exception was thrown"

\* Payload bytes of a write are named by a tag: byte number i (from 0) of payload tag.
Pat(tag, i) == 1 + ((tag * 7 + i) % 200)
PatSeq(tag, n) == [i \in 1..n |-> Pat(tag, i - 1)]
Zeros(n) == [i \in 1..n |-> 0]
Fill(b, n) == [i \in 1..n |-> b]

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Slice(s, off, n) == SubSeq(s, off + 1, Min2(off + n, Len(s)))
\* Writing b at offset off of d: overwrites, extends; a gap reads as zeros.
Overwrite(d, off, b) ==
    IF off <= Len(d) THEN SubSeq(d, 1, off) \o b \o Drop(d, off + Len(b))
    ELSE d \o Zeros(off - Len(d)) \o b
LE16(v) == <<v % 256, v \div 256>>
LE32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
FromLE(b) == LET RECURSIVE F(_) F(i) == IF i > Len(b) THEN 0 ELSE b[i] + 256 * F(i + 1) IN F(1)
\* a 32-bit length prefix; anything above 2^24 is as good as 2^24
LenPrefix(b) == IF b[4] # 0 THEN 16777216 ELSE b[1] + 256 * b[2] + 65536 * b[3]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
