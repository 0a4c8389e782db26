------------------------------- MODULE SysFile -------------------------------
(* S12. Files of the file system. names: what each name holds (ex: exists);   *)
(* descs: open descriptions (file, position, readable, writable) which copies *)
(* of a stream share; slots 1..3 are plain files, slot 4 a cached one:        *)
(* d the description (0: closed), s the stream state. locks: per name, the    *)
(* bytes locked for other processes.                                          *)
EXTENDS Bytes
NOPOS == -1
Start(a) == {[names |-> [n \in 1..3 |-> IF a[n] < 0 THEN [ex |-> FALSE, ro |-> FALSE, d |-> <<>>] ELSE [ex |-> TRUE, ro |-> FALSE, d |-> PatSeq(n, a[n])]],
              descs |-> <<>>, slots |-> [k \in 1..4 |-> [d |-> 0, s |-> OK]], locks |-> [n \in 1..3 |-> {}]]}
Bit(m, b) == (m \div b) % 2 = 1
Disp(m) == (m \div 8) % 8
Rd(k, m) == Bit(m, 1) \/ (k = 4 /\ Bit(m, 2))
\* what follows is for one slot: its description, its file
Closed(st, k) == st.slots[k].d = 0
D(st, k) == st.descs[st.slots[k].d]
N(st, k) == D(st, k).n
Data(st, k) == st.names[N(st, k)].d
Avail(st, k) == Max2(0, Len(Data(st, k)) - D(st, k).pos)
State(st, k, s) == [st EXCEPT !.slots[k].s = s]
Move(st, k, p) == [st EXCEPT !.descs[st.slots[k].d].pos = p]
SetData(st, k, d) == [st EXCEPT !.names[N(st, k)].d = d]
Ret(r, st) == {[r |-> r, s |-> st]}
\* closing any handle of a file may take the process's locks on it away
Unlocks(st, k) == IF Closed(st, k) \/ st.locks[N(st, k)] = {} THEN {st} ELSE {st, [st EXCEPT !.locks[N(st, k)] = {}]}
Shut(st, k) == {[t EXCEPT !.slots[k] = [d |-> 0, s |-> OK]] : t \in Unlocks(st, k)}
Open(st, k, n, m) ==
    LET f == st.names[n]
        okay == CASE Disp(m) \in {0, 1} -> f.ex [] Disp(m) \in {2, 4} -> TRUE [] Disp(m) = 3 -> ~f.ex [] OTHER -> FALSE
        d == IF Disp(m) \in {1, 4} \/ ~f.ex THEN <<>> ELSE f.d
        e == [n |-> n, pos |-> IF Bit(m, 64) THEN Len(d) ELSE 0, rd |-> Rd(k, m), wr |-> Bit(m, 2)]
    IN IF ~okay THEN [State(st, k, FAIL) EXCEPT !.slots[k].d = 0]
       ELSE [st EXCEPT !.names[n].ex = TRUE, !.names[n].d = d, !.descs = Append(@, e), !.slots[k] = [d |-> Len(st.descs) + 1, s |-> OK]]
\* reading at most n bytes; whole: reading until n are there
Read(st, k, n, whole) ==
    IF Closed(st, k) \/ ~D(st, k).rd THEN {[n |-> 0, b |-> <<>>, s |-> x] : x \in IF n = 0 THEN {OK, FAIL} ELSE {FAIL}}
    ELSE LET m == Min2(n, Avail(st, k)) IN
         {[n |-> m, b |-> Slice(Data(st, k), D(st, k).pos, m), s |-> IF (IF whole THEN m < n ELSE n > 0 /\ m = 0) THEN EOF ELSE OK]}
Bytes_(st, k, o, r) == [r |-> r, s |-> State(IF Closed(st, k) THEN st ELSE Move(st, k, D(st, k).pos + o.n), k, o.s)]
Target(st, k, off, how) == (IF how = 0 THEN 0 ELSE IF how = 1 THEN D(st, k).pos ELSE Len(Data(st, k))) + off
Stand(st, k) == IF Closed(st, k) THEN <<NOPOS, NOPOS, st.slots[k].s, 0>> ELSE <<D(st, k).pos, Len(Data(st, k)), st.slots[k].s, 1>>
Eval(st, op, a) ==
    LET k == a[1] IN
    CASE op = "open" -> IF Disp(a[3]) > 4 THEN {[r |-> <<EXC>>, s |-> t] : t \in UNION {{u, [u EXCEPT !.slots[k].s = FAIL]} : u \in Shut(st, k)}}
            ELSE {LET t == Open(u, k, a[2], a[3]) IN [r |-> Stand(t, k), s |-> t] : u \in Shut(st, k)}
      [] op = "read" -> {Bytes_(st, k, o, <<o.n, o.s>> \o o.b) : o \in Read(st, k, a[2], FALSE)}
      [] op = "read_array" -> {Bytes_(st, k, o, <<o.n \div a[2], o.s>> \o o.b) : o \in Read(st, k, a[2] * a[3], TRUE)}
      [] op = "remainder" -> {Bytes_(st, k, o, <<o.n, o.s>> \o o.b) : o \in Read(st, k, IF Closed(st, k) THEN 0 ELSE Avail(st, k), TRUE)}
      [] op = "write" -> IF Closed(st, k) \/ ~D(st, k).wr THEN {[r |-> <<0, x>>, s |-> State(st, k, x)] : x \in IF a[3] = 0 THEN {OK, FAIL} ELSE {FAIL}}
            ELSE IF a[3] = 0 THEN Ret(<<0, OK>>, State(st, k, OK))
            ELSE Ret(<<a[3], OK>>, State(Move(SetData(st, k, Overwrite(Data(st, k), D(st, k).pos, PatSeq(a[2], a[3]))), k, D(st, k).pos + a[3]), k, OK))
      [] op = "seek" -> IF Closed(st, k) \/ Target(st, k, a[2], a[3]) < 0 THEN Ret(<<NOPOS, FAIL>>, State(st, k, FAIL))
            ELSE Ret(<<Target(st, k, a[2], a[3]), OK>>, State(Move(st, k, Target(st, k, a[2], a[3])), k, OK))
      [] op = "skip" -> IF Closed(st, k) THEN Ret(<<FAIL>>, State(st, k, FAIL)) ELSE Ret(<<OK>>, State(Move(st, k, D(st, k).pos + a[2]), k, OK))
      [] op = "tell" -> Ret(Stand(st, k), st)
      [] op = "truncate" -> IF Closed(st, k) \/ ~D(st, k).wr THEN Ret(<<FAIL>>, State(st, k, FAIL))
            ELSE Ret(<<OK>>, State(SetData(st, k, IF D(st, k).pos <= Len(Data(st, k)) THEN Take(Data(st, k), D(st, k).pos) ELSE Overwrite(Data(st, k), D(st, k).pos, <<>>)), k, OK))
      [] op = "flush" -> {[r |-> <<x>>, s |-> State(st, k, x)] : x \in IF Closed(st, k) THEN {FAIL} ELSE {OK}}
      [] op = "close" -> {[r |-> <<OK, 0>>, s |-> t] : t \in Shut(st, k)}
      [] op = "gone" -> {[r |-> <<0, 0>>, s |-> State(st, k, x)] : x \in IF Closed(st, k) THEN {EOF, FAIL} ELSE {}}
      [] op = "destroy" -> {[r |-> <<>>, s |-> t] : t \in Shut(st, k)}
      \* slot a[2] becomes a copy of slot k, or takes it over
      [] op \in {"copy_ctor", "copy_assign"} -> {[r |-> <<>>, s |-> [u EXCEPT !.slots[a[2]] = [d |-> st.slots[k].d, s |-> x]]] : x \in {st.slots[k].s, OK}, u \in IF a[2] = k THEN {st} ELSE Shut(st, a[2])}
      [] op \in {"move_ctor", "move_assign"} -> {[r |-> <<>>, s |-> [u EXCEPT !.slots[a[2]] = [d |-> st.slots[k].d, s |-> x], !.slots[k] = [d |-> IF a[2] = k THEN @.d ELSE 0, s |-> y]]]
                                                    : x \in {st.slots[k].s, OK}, y \in {st.slots[k].s, OK}, u \in IF a[2] = k THEN {st} ELSE Shut(st, a[2])}
      \* what a name holds, seen from outside
      \* (looking closes a handle of the file)
      [] op = "disk" -> {[r |-> IF st.names[k].ex THEN <<1, IF st.names[k].ro THEN 1 ELSE 0>> \o st.names[k].d ELSE <<0, 0>>, s |-> t] : t \in {st, [st EXCEPT !.locks[k] = {}]}}
      [] op = "chmod" -> IF ~st.names[k].ex THEN Ret(<<>>, st) ELSE Ret(<<>>, [st EXCEPT !.names[k].ro = a[2] = 1])
      [] op = "times" -> Ret(IF Closed(st, k) THEN <<EXC>> ELSE Tail(a), st)
      [] op = "lock" -> IF Closed(st, k) \/ ~D(st, k).wr THEN Ret(<<FAIL>>, State(st, k, FAIL))
            ELSE Ret(<<OK>>, [State(st, k, OK) EXCEPT !.locks[N(st, k)] = @ \cup (a[2]..(a[2] + a[3] - 1))])
      [] op = "unlock" -> IF Closed(st, k) THEN Ret(<<FAIL>>, State(st, k, FAIL))
            ELSE IF (a[2]..(a[2] + a[3] - 1)) \subseteq st.locks[N(st, k)] THEN Ret(<<OK>>, [State(st, k, OK) EXCEPT !.locks[N(st, k)] = @ \ (a[2]..(a[2] + a[3] - 1))])
            ELSE {[r |-> <<x>>, s |-> [State(st, k, x) EXCEPT !.locks[N(st, k)] = IF x = OK THEN @ \ (a[2]..(a[2] + a[3] - 1)) ELSE @]] : x \in {OK, FAIL}}
      [] op = "locked" -> Ret([i \in 1..16 |-> IF (i - 1) \in st.locks[k] THEN 1 ELSE 0], st)
      [] OTHER -> {}
TypeOK(st) == \A k \in 1..4 : st.slots[k].d \in 0..Len(st.descs) /\ (st.slots[k].d # 0 => D(st, k).pos >= 0)
=============================================================================
