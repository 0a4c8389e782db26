------------------------------- MODULE Digest -------------------------------
(* CRC-32, MD5 (RFC 1321) and SHA-1 (FIPS 180) over byte strings. A 32-bit     *)
(* word is <<high half, low half>>.                                            *)
EXTENDS Bytes, Bitwise, SequencesExt
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
AddW(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div 65536) % 65536, l % 65536>>
Rol(a, n) == IF n = 16 THEN <<a[2], a[1]>>
             ELSE LET m == n % 16 p == 2^m q == 2^(16 - m) x == IF n > 16 THEN a[2] ELSE a[1] y == IF n > 16 THEN a[1] ELSE a[2] IN
                  <<((x * p) % 65536) + y \div q, ((y * p) % 65536) + x \div q>>
BytesLE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
BytesBE(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
WordLE(b) == <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>
WordBE(b) == <<256 * b[1] + b[2], 256 * b[3] + b[4]>>
Shr1(w) == <<w[1] \div 2, w[2] \div 2 + (w[1] % 2) * 32768>>
Shr8(w) == <<w[1] \div 256, w[2] \div 256 + (w[1] % 256) * 256>>
----
RECURSIVE CrcStep(_, _)
CrcStep(w, k) == IF k = 0 THEN w ELSE CrcStep(IF w[2] % 2 = 1 THEN XorW(Shr1(w), <<60856, 33568>>) ELSE Shr1(w), k - 1)
CrcTable == [i \in 0..255 |-> CrcStep(<<0, i>>, 8)]
CrcRun(c, m) == FoldLeft(LAMBDA u, b : XorW(CrcTable[(u[2] ^^ b) % 256], Shr8(u)), c, m)
Ones == <<65535, 65535>>
Crc(m) == XorW(CrcRun(Ones, m), Ones)
----
\* padding: a one bit, zeros, the length in bits; to a multiple of 64 bytes
Padded(m, little) == LET n == Len(m) bits == <<n \div 8192, (n * 8) % 65536>> z == (119 - (n % 64)) % 64 IN
    m \o <<128>> \o Zeros(z) \o (IF little THEN BytesLE(bits) \o Zeros(4) ELSE Zeros(4) \o BytesBE(bits))
MdT == <<
      <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
      <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
      <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
      <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
      <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
      <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
      <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
      <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
MdS == <<7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21>>
RECURSIVE MdRound(_, _, _)
MdRound(s, x, i) == IF i = 64 THEN s ELSE
    LET b == s[2] c == s[3] d == s[4] r == i \div 16
        f == CASE r = 0 -> OrW(AndW(b, c), AndW(NotW(b), d)) [] r = 1 -> OrW(AndW(d, b), AndW(NotW(d), c))
               [] r = 2 -> XorW(XorW(b, c), d) [] OTHER -> XorW(c, OrW(b, NotW(d)))
        g == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
        t == AddW(AddW(AddW(s[1], f), MdT[i + 1]), x[g + 1])
    IN MdRound(<<d, AddW(b, Rol(t, MdS[4 * r + (i % 4) + 1])), b, c>>, x, i + 1)
RECURSIVE MdRun(_, _)
MdRun(s, m) == IF m = <<>> THEN s ELSE
    LET x == [k \in 1..16 |-> WordLE(SubSeq(m, 4 * k - 3, 4 * k))] t == MdRound(s, x, 0) IN
    MdRun([k \in 1..4 |-> AddW(s[k], t[k])], SubSeq(m, 65, Len(m)))
Md5(m) == LET s == MdRun(<<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>>>, Padded(m, TRUE)) IN
    BytesLE(s[1]) \o BytesLE(s[2]) \o BytesLE(s[3]) \o BytesLE(s[4])
----
RECURSIVE Schedule(_, _)
Schedule(w, i) == IF i > 80 THEN w ELSE Schedule(Append(w, Rol(XorW(XorW(w[i - 3], w[i - 8]), XorW(w[i - 14], w[i - 16])), 1)), i + 1)
RECURSIVE ShaRound(_, _, _)
ShaRound(s, w, i) == IF i > 80 THEN s ELSE
    LET b == s[2] c == s[3] d == s[4] r == (i - 1) \div 20
        f == CASE r = 0 -> OrW(AndW(b, c), AndW(NotW(b), d)) [] r = 2 -> OrW(OrW(AndW(b, c), AndW(b, d)), AndW(c, d)) [] OTHER -> XorW(XorW(b, c), d)
        k == <<<<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>[r + 1]
        t == AddW(AddW(AddW(Rol(s[1], 5), f), AddW(s[5], k)), w[i])
    IN ShaRound(<<t, s[1], Rol(b, 30), c, d>>, w, i + 1)
RECURSIVE ShaRun(_, _)
ShaRun(s, m) == IF m = <<>> THEN s ELSE
    LET w == Schedule([k \in 1..16 |-> WordBE(SubSeq(m, 4 * k - 3, 4 * k))], 17) t == ShaRound(s, w, 1) IN
    ShaRun([k \in 1..5 |-> AddW(s[k], t[k])], SubSeq(m, 65, Len(m)))
Sha1(m) == LET s == ShaRun(<<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>, Padded(m, FALSE)) IN
    BytesBE(s[1]) \o BytesBE(s[2]) \o BytesBE(s[3]) \o BytesBE(s[4]) \o BytesBE(s[5])
----
Abc == <<97, 98, 99>>
ASSUME Crc(Abc) = <<13604, 16834>>
ASSUME Md5(Abc) = <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>
ASSUME Sha1(Abc) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
=============================================================================
