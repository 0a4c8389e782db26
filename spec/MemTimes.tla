------------------------------ MODULE MemTimes ------------------------------
(* S01, built to keep the times of files: the memory files of MemFile, and    *)
(* t[k] = <<created, accessed, modified>> of slot k, which must follow what    *)
(* is done. NOW: the time of the last operation; NEVER: of a closed file;      *)
(* other numbers: seconds since 1970, as they were set.                        *)
EXTENDS MemFile
NOW == -1
NEVER == -2
ODD == -3
MStart(a) == {[m |-> x, t |-> <<<<NOW, NOW, NOW>>, <<NOW, NOW, NOW>>>>] : x \in Start(a)}
Acc(t) == <<t[1], NOW, t[3]>>
Mod(t) == <<t[1], NOW, NOW>>
Read_ == {"read", "read_array", "read_byte", "read_data", "read_str", "read_remainder", "readln", "get"}
Write_ == {"write", "put", "write_byte", "write_array", "write_data", "write_str", "write_stream", "truncate", "set"}
AnyOf(t, u) == {<<c, x, y>> : c \in {NOW, NEVER, t[1]}, x \in {NOW, t[2], u[2]} \cup (IF NEVER \in {u[2], u[3]} THEN {ODD} ELSE {}), y \in {NOW, t[3], u[3]} \cup (IF NEVER \in {u[2], u[3]} THEN {ODD} ELSE {})}
\* the times of both, given both before and after, the slot and whether it went well
After(op, a, t, k, ok) ==
    LET o == 3 - k  Put(x) == [t EXCEPT ![k] = x] IN
    CASE op \in Read_ -> IF ok THEN {Put(Acc(t[k]))} ELSE {Put(x) : x \in {t[k], Acc(t[k])}}
      [] op \in Write_ -> IF ok THEN {Put(Mod(t[k]))} ELSE {Put(x) : x \in {t[k], Acc(t[k]), Mod(t[k])}}
      [] op = "reserve" -> {Put(x) : x \in {t[k], Acc(t[k]), Mod(t[k])}}
      [] op = "close" -> {Put(x) : x \in {<<NOW, NOW, NOW>>, <<NEVER, NEVER, NEVER>>}}
      [] op \in {"copy_ctor", "copy_assign"} -> {[t EXCEPT ![o] = t[k]]}
      [] op \in {"move_ctor", "move_assign"} -> {[t EXCEPT ![o] = t[k], ![k] = x] : x \in {t[k], <<NOW, NOW, NOW>>, <<NEVER, NEVER, NEVER>>}}
      [] op = "self_assign" -> {t}
      \* the file takes the times along; reading it may be noticed
      [] op = "save_load" -> IF ~ok THEN {[t EXCEPT ![o] = x] : x \in AnyOf(t[o], t[k])}
            ELSE {[t EXCEPT ![o] = <<c, x, y>>] : c \in {NOW, NEVER}, x \in {NOW, t[k][2]} \cup (IF NEVER \in {t[k][2], t[k][3]} THEN {ODD} ELSE {}),
                                                  y \in {t[k][3]} \cup (IF NEVER \in {t[k][2], t[k][3]} THEN {NOW, ODD} ELSE {})}
      [] op = "copy_between" -> {[t EXCEPT ![k] = x, ![o] = y] : x \in {t[k], Acc(t[k])}, y \in IF ok THEN {Mod(t[o])} ELSE {t[o], Acc(t[o]), Mod(t[o])}}
      [] OTHER -> {t}
MEval(st, op, a) ==
    LET k == a[1] IN
    CASE op = "age" -> {[r |-> <<>>, s |-> [st EXCEPT !.t[k] = Tail(a)]]}
      [] op = "times" -> {[r |-> st.t[k], s |-> st]}
      [] OTHER -> UNION {LET f == IF op \in {"save_load", "copy_between"} THEN o.s.f[3 - k] ELSE o.s.f[k]
                             well == f.s = OK /\ (op # "write_stream" \/ o.r[1] > 0) /\ (op # "copy_between" \/ o.r[1] > 0)
                         IN {[r |-> o.r, s |-> [m |-> o.s, t |-> x]] : x \in After(op, a, st.t, k, well)} : o \in Eval(st.m, op, a)}
=============================================================================
