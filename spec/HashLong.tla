------------------------------ MODULE HashLong ------------------------------
(* S09. Messages of zeros too long to be hashed here (their length in bits     *)
(* does not fit 32 bits): mib * 2^20 + n bytes. Digests by Python's hashlib.   *)
EXTENDS Bytes
Start(a) == {[kind |-> a[1], mib |-> 0, n |-> 0]}
Vector(k, mib, n) ==
    CASE mib = 512 /\ n = 13 -> <<<<27138, 41057>>, <<4, 193, 74, 204, 157, 50, 60, 174, 39, 47, 47, 175, 188, 97, 152, 102>>,
                                 <<186, 53, 129, 90, 241, 72, 140, 73, 79, 86, 71, 219, 42, 150, 177, 37, 201, 215, 236, 133>>>>[k]
      [] mib = 4096 /\ n = 77 -> <<<<16523, 20714>>, <<17, 247, 69, 197, 91, 180, 113, 150, 133, 47, 56, 102, 207, 75, 43, 104>>,
                                  <<166, 68, 178, 142, 51, 231, 233, 40, 68, 49, 174, 208, 221, 185, 45, 103, 94, 121, 5, 243>>>>[k]
Eval(s, op, a) ==
    CASE op = "zeros" -> {[r |-> <<>>, s |-> [s EXCEPT !.mib = @ + a[1], !.n = @ + a[2]]]}       \* in one call
      [] op = "final" -> LET d == Vector(s.kind, s.mib, s.n) IN {[r |-> <<IF s.kind = 1 THEN 4 ELSE Len(d)>> \o d, s |-> s]}
      [] OTHER -> {}
=============================================================================
