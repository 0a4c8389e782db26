---------------------------- MODULE AsyncWriter ----------------------------
(* C03. Write-back through a queue of cap bytes. acc: bytes accepted by the   *)
(* writes that returned, del: bytes the sink got; byte i is Pat(4, i).        *)
(* Calls: 1 write n, 2 flush, 3 destroy, 4 close. Events at the sink: sink    *)
(* [state, bytes..], sinkflush [state], sinkclose [state].                    *)
EXTENDS Bytes
NoCall == <<0>>
Start(a) == {[cap |-> a[8], acc |-> 0, del |-> 0, failed |-> FALSE, gone |-> FALSE, pend |-> NoCall, last |-> -1]}
To(s) == {[r |-> <<>>, s |-> s]}
\* bytes the sink may know of: accepted ones and those of the write in progress
Known(s) == s.acc + IF s.pend[1] = 1 THEN s.pend[2] ELSE 0
SinkWrite(s, a) ==
    LET k == Len(a) - 1 IN
    IF ~s.gone /\ ~s.failed /\ s.del + k <= Known(s) /\ \A i \in 1..k : a[i + 1] = Pat(4, s.del + i - 1)
    THEN To([s EXCEPT !.del = @ + k, !.failed = a[1] # OK]) ELSE {}
\* passed on only after everything before was delivered (or never will be)
SinkCtl(s, code, a) == IF ~s.gone /\ s.pend[1] = code /\ (s.failed \/ s.del = s.acc) THEN To([s EXCEPT !.last = a[1]]) ELSE {}
Call(s, a) == IF s.gone \/ s.pend # NoCall THEN {} ELSE To([s EXCEPT !.pend = SubSeq(a, 2, Len(a)), !.last = -1])
Back(s) == [s EXCEPT !.pend = NoCall, !.last = -1]
Ret(s) ==
    CASE s.pend[1] = 1 ->
           LET n == s.pend[2] IN
           {[r |-> <<k, IF k = n THEN OK ELSE FAIL>>, s |-> Back([s EXCEPT !.acc = @ + k])] :
               k \in {k \in 0..n : s.del <= s.acc + k /\ s.acc + k - s.del <= s.cap /\ (k < n => s.failed)}}
           \cup (IF n = 0 /\ s.failed THEN {[r |-> <<0, FAIL>>, s |-> Back(s)]} ELSE {})
      [] s.pend[1] \in {2, 4} ->
           (IF s.del = s.acc /\ s.last # -1 THEN {[r |-> <<s.last>>, s |-> Back(s)]} ELSE {})
           \cup (IF s.failed THEN {[r |-> <<x>>, s |-> Back(s)] : x \in {EOF, FAIL}} ELSE {})
      [] s.pend[1] = 3 -> IF s.failed \/ s.del = s.acc THEN {[r |-> <<>>, s |-> Back([s EXCEPT !.gone = TRUE])]} ELSE {}
      [] OTHER -> {}
Eval(s, op, a) ==
    CASE op = "call" -> Call(s, a)
      [] op = "ret" -> Ret(s)
      [] op = "sink" -> SinkWrite(s, a)
      [] op = "sinkflush" -> SinkCtl(s, 2, a)
      [] op = "sinkclose" -> SinkCtl(s, 4, a)
      [] op = "end" -> IF s.gone THEN To(s) ELSE {}
      [] OTHER -> {}                                    \* deadlock, race, ..
=============================================================================
