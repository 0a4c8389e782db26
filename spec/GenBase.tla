------------------------------ MODULE GenBase ------------------------------
(* Exhaustive exploration of a component's specification within bounds; each *)
(* transition is printed as a script (its shortest history), to be executed  *)
(* by the real code.                                                         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Start(_), Eval(_, _, _), Starts, Calls(_), Depth, Recent
VARIABLES st, hist
Do(op, a) == [op |-> op, a |-> a]
GInit == \E a \in Starts : st \in Start(a) /\ hist = <<Do("start", a)>>
GNext == /\ Len(hist) <= Depth
         /\ \E c \in Calls(st) : \E o \in Eval(st, c[1], c[2]) :
               /\ st' = o.s
               /\ hist' = Append(hist, Do(c[1], c[2]))
               /\ PrintT(<<"GEN", ToJson(hist')>>)
\* what the specification's state does not tell (caches, buffers) depends on what was done recently
GView == <<st, SubSeq(hist, 1 + IF Len(hist) > Recent THEN Len(hist) - Recent ELSE 0, Len(hist))>>
=============================================================================
