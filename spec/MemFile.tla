------------------------------ MODULE MemFile ------------------------------
(* S01. A file in memory: two independent memory files (slots 1 and 2), each *)
(* a growable byte array d with an offset, a stream state and, when the      *)
(* memory is not its own, a fixed capacity.                                  *)
EXTENDS Bytes

Empty == [d |-> <<>>, off |-> 0, s |-> OK, man |-> TRUE, cap |-> 0]
HUGE == 1000000000       \* stands for an offset no memory can be reserved for

\* kind 0: default; 1: reserved space; 2: borrowed memory; 3: adopted memory
New(kind, size, cap) ==
    CASE kind = 0 -> Empty
      [] kind = 1 -> Empty
      [] kind = 2 -> [d |-> PatSeq(9, size), off |-> 0, s |-> OK, man |-> FALSE, cap |-> cap]
      [] kind = 3 -> [d |-> PatSeq(9, size), off |-> 0, s |-> OK, man |-> TRUE, cap |-> 0]
Start(a) == {[f |-> <<New(a[1], a[2], a[3]), Empty>>]}

Fits(f, end) == IF f.man THEN end < HUGE ELSE end <= f.cap
Avail(f) == Max2(0, Len(f.d) - f.off)

\* results: <<return value, state, data...>>
ReadN(f, n) ==
    LET m == Min2(n, Avail(f))
        s == IF n > 0 /\ Avail(f) = 0 THEN EOF ELSE OK
    IN [r |-> <<m, s>> \o Slice(f.d, f.off, m), f |-> [f EXCEPT !.off = @ + m, !.s = s]]
\* reading until n bytes are there or the end is hit
ReadAll(f, n) ==
    LET m == Min2(n, Avail(f))
        s == IF m < n THEN EOF ELSE OK
    IN [b |-> Slice(f.d, f.off, m), f |-> [f EXCEPT !.off = @ + m, !.s = s]]
WriteB(f, b) ==
    LET end == f.off + Len(b) IN
    IF ~Fits(f, end) THEN [n |-> 0, f |-> [f EXCEPT !.s = FAIL]]
    ELSE [n |-> Len(b), f |-> [f EXCEPT !.d = Overwrite(@, f.off, b), !.off = end, !.s = OK]]

\* A source stream of another kind: n bytes of payload tag, then end (1) or failure (2)
WriteStream(f, tag, n, fin, amount) ==
    LET fixed == amount >= 0
        \* without a limit a whole block beyond the data is reserved
        need == IF fixed THEN f.off + amount ELSE f.off + 65536 * (n \div 65536 + 1)
        m == IF fixed THEN Min2(n, amount) ELSE n
        w == [f EXCEPT !.d = Overwrite(@, f.off, PatSeq(tag, m)), !.off = @ + m]
        s == IF fixed /\ amount <= n THEN OK ELSE IF fin = 2 THEN FAIL ELSE OK
    IN IF ~Fits(f, need) THEN [n |-> 0, f |-> [f EXCEPT !.s = FAIL]]
       ELSE [n |-> m, f |-> [w EXCEPT !.s = s]]

FindNL(f) == LET S == {i \in 1..Avail(f) : f.d[f.off + i] = 10} IN
             IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ReadLn(f) ==
    LET k == FindNL(f)
        n == IF k = 0 THEN Avail(f) ELSE k
        raw == Slice(f.d, f.off, n)
        body == IF k = 0 THEN raw
                ELSE IF k > 1 /\ raw[k - 1] = 13 THEN SubSeq(raw, 1, k - 2) ELSE SubSeq(raw, 1, k - 1)
        s == IF k = 0 THEN EOF ELSE OK
    IN [b |-> body, f |-> [f EXCEPT !.off = @ + n, !.s = s]]

Seek(f, off, how) == (IF how = 0 THEN 0 ELSE IF how = 1 THEN f.off ELSE Len(f.d)) + off

Eval(st, op, a) ==
    LET k == a[1]
        f == st.f[k]
        Put(g) == [st EXCEPT !.f[k] = g]
        One(r, g) == {[r |-> r, s |-> Put(g)]}
        other == 3 - k
    IN
    CASE op = "read" -> LET x == ReadN(f, a[2]) IN One(x.r, x.f)
      [] op = "read_array" -> LET x == ReadAll(f, a[2] * a[3]) IN
            One(<<Len(x.b) \div a[2], x.f.s>> \o x.b, x.f)
      [] op = "read_byte" -> IF Avail(f) = 0 THEN One(<<EXC, EOF>>, [f EXCEPT !.s = EOF])
                             ELSE One(<<f.d[f.off + 1], OK>>, [f EXCEPT !.off = @ + 1, !.s = OK])
      [] op = "read_data" ->                       \* a[2]: size of the type
            IF f.s # OK THEN One(<<f.s>> \o Zeros(a[2]), f)
            ELSE IF Avail(f) >= a[2] THEN One(<<OK>> \o Slice(f.d, f.off, a[2]), [f EXCEPT !.off = @ + a[2]])
            ELSE One(<<EOF>> \o Zeros(a[2]), [f EXCEPT !.off = Len(f.d), !.s = EOF])
      [] op = "read_str" ->                        \* a[2]: size of a character
            IF f.s # OK THEN One(<<f.s>>, f)
            ELSE LET n == IF Avail(f) >= 4 THEN LenPrefix(Slice(f.d, f.off, 4)) ELSE 0 IN
                 IF Avail(f) >= 4 /\ Avail(f) - 4 >= n * a[2]
                 THEN One(<<OK>> \o Slice(f.d, f.off + 4, n * a[2]), [f EXCEPT !.off = @ + 4 + n * a[2]])
                 ELSE One(<<EOF>>, [f EXCEPT !.off = Len(f.d), !.s = EOF])
      [] op = "read_remainder" -> LET x == ReadAll(f, IF a[2] < 0 THEN Avail(f) ELSE Min2(a[2], Avail(f))) IN
            One(<<Len(x.b), x.f.s>> \o x.b, x.f)
      [] op = "readln" -> LET x == ReadLn(f) IN One(<<Len(x.b), x.f.s>> \o x.b, x.f)
      [] op = "write" -> LET x == WriteB(f, PatSeq(a[2], a[3])) IN One(<<x.n, x.f.s>>, x.f)
      [] op = "put" -> LET x == WriteB(f, Tail(a)) IN One(<<x.n, x.f.s>>, x.f)      \* literal bytes
      [] op = "write_byte" -> LET x == WriteB(f, Fill(a[2], a[3])) IN One(<<x.f.s>>, x.f)
      [] op = "write_array" -> LET x == WriteB(f, PatSeq(a[2], a[3] * a[4])) IN
            One(<<x.n \div a[3], x.f.s>>, x.f)
      [] op = "write_data" -> IF f.s # OK THEN One(<<f.s>>, f)
            ELSE LET x == WriteB(f, PatSeq(a[2], a[3])) IN One(<<x.f.s>>, x.f)
      [] op = "write_str" -> IF f.s # OK THEN One(<<f.s>>, f)       \* tag, size of char, chars, as literal?
            ELSE LET x == WriteB(f, LE32(a[4]) \o PatSeq(a[2], a[3] * a[4])) IN One(<<x.f.s>>, x.f)
      [] op = "write_stream" -> LET x == WriteStream(f, a[2], a[3], a[4], a[5]) IN One(<<x.n, x.f.s>>, x.f)
      [] op = "seek" -> LET p == Seek(f, a[2], a[3]) IN
            IF p < 0 THEN One(<<EXC, f.s>>, f) ELSE One(<<p, OK>>, [f EXCEPT !.off = p, !.s = OK])
      [] op = "skip" -> One(<<OK>>, [f EXCEPT !.off = @ + a[2], !.s = OK])
      [] op = "tell" -> One(<<f.off, Len(f.d), f.s>>, f)
      [] op = "truncate" -> IF f.off > Len(f.d) /\ ~Fits(f, f.off) THEN One(<<FAIL>>, [f EXCEPT !.s = FAIL])
            ELSE One(<<OK>>, [f EXCEPT !.d = IF f.off <= Len(@) THEN Take(@, f.off) ELSE Overwrite(@, f.off, <<>>), !.s = OK])
      [] op = "reserve" ->
            IF f.man THEN One(<<OK>>, [f EXCEPT !.d = IF a[3] = 1 THEN Take(@, a[2]) ELSE @, !.s = OK])
            ELSE IF a[2] = f.cap \/ (a[3] = 0 /\ a[2] <= f.cap) THEN One(<<OK>>, [f EXCEPT !.s = OK])
            ELSE One(<<FAIL>>, [f EXCEPT !.s = FAIL])
      [] op = "set" ->   \* offset, tag, size: within the file
            One(<<f.s>>, [f EXCEPT !.d = Overwrite(@, a[2], PatSeq(a[3], a[4]))])
      [] op = "get" -> One(Slice(f.d, a[2], a[3]), f)
      [] op = "data" -> One(f.d, f)
      [] op = "flush" -> One(<<OK>>, [f EXCEPT !.s = OK])
      [] op = "close" -> One(<<OK>>, Empty)
      \* a constructed copy may take over the stream state or start out ok
      [] op = "copy_ctor" -> {[r |-> <<>>, s |-> [st EXCEPT !.f[other] = [f EXCEPT !.man = TRUE, !.cap = 0, !.s = s]]] : s \in {OK, f.s}}
      [] op = "copy_assign" -> {[r |-> <<>>, s |-> [st EXCEPT !.f[other] = [f EXCEPT !.man = TRUE, !.cap = 0]]]}
      [] op = "move_ctor" -> {[r |-> <<>>, s |-> [st EXCEPT !.f[other] = [f EXCEPT !.s = s], !.f[k] = Empty]] : s \in {OK, f.s}}
      \* after move assignment the moved-from file is empty; its state is not specified but stays
      [] op = "move_assign" -> {[r |-> <<>>, s |-> [st EXCEPT !.f[other] = f, !.f[k] = [Empty EXCEPT !.s = f.s]]]}
      [] op = "self_assign" -> One(<<>>, f)
      \* loading from or saving to where no file can be
      [] op = "bad_file" -> One(<<FAIL>>, [f EXCEPT !.s = FAIL])
      \* saving to a file that has a[2] bytes already, then loading the file into the other slot
      \* (borrowed memory cannot be made to fit the file's size)
      [] op = "save_load" /\ a[2] % 2 = 1 /\ ~st.f[other].man -> {[r |-> <<OK, FAIL>> \o f.d, s |-> [st EXCEPT !.f[k].s = OK,
                                 !.f[other] = IF Len(f.d) # @.cap THEN [@ EXCEPT !.s = FAIL] ELSE [@ EXCEPT !.d = <<>>, !.off = 0, !.s = FAIL]]]}
      [] op = "save_load" -> {[r |-> <<OK, OK>> \o f.d, s |-> [st EXCEPT !.f[k].s = OK,
                                 !.f[other] = [d |-> f.d, off |-> 0, s |-> OK, man |-> TRUE, cap |-> 0]]]}
      \* writing one memory file into the other
      [] op = "copy_between" -> LET m == Min2(Avail(f), IF a[2] < 0 THEN Avail(f) ELSE a[2])
                                    g == WriteB(st.f[other], Slice(f.d, f.off, m))
                                    hit == IF a[2] < 0 \/ m < a[2] THEN EOF ELSE IF a[2] = 0 THEN f.s ELSE OK IN
            IF ~Fits(st.f[other], IF a[2] < 0 THEN st.f[other].off + 65536 * (m \div 65536 + 1) ELSE st.f[other].off + a[2])
            THEN {[r |-> <<0, FAIL, f.s>>, s |-> [st EXCEPT !.f[other].s = FAIL]]}
            ELSE {[r |-> <<m, OK, hit>>, s |-> [st EXCEPT !.f[other] = [g.f EXCEPT !.s = OK], !.f[k] = [f EXCEPT !.off = @ + m, !.s = hit]]]}
      [] OTHER -> {}

TypeOK(st) == \A k \in 1..2 : /\ st.f[k].off >= 0 /\ st.f[k].s \in {OK, EOF, FAIL}
                              /\ (~st.f[k].man => Len(st.f[k].d) <= st.f[k].cap)
=============================================================================
