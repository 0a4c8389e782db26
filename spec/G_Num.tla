------------------------------- MODULE G_Num -------------------------------
EXTENDS Num
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<>>}
Z7 == Zeros(7)
Edges == {Zeros(8), <<1>> \o Z7, <<2>> \o Z7, Z7 \o <<128>>, Z7 \o <<127>>, Fill(255, 7) \o <<127>>, Fill(255, 8), <<254>> \o Fill(255, 7), <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0>>,
          <<3, 0, 0, 128, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 128>>, <<85, 85, 85, 85, 85, 85, 85, 85>>}
E4 == {Zeros(4), <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<1, 0, 1, 0>>, <<120, 86, 52, 18>>}
Calls(s) == {<<op, x \o y>> : op \in {"mul", "add"}, x \in Edges, y \in Edges} \cup {<<"rol", <<n>> \o x>> : n \in 0..40, x \in E4}
    \cup {<<"order", <<i>> \o x>> : i \in {3}, x \in Edges} \cup {<<"order", <<2>> \o x>> : x \in E4}
INSTANCE GenBase WITH Start <- NStart, Eval <- NEval
\* laws of this arithmetic
Inv == \A x \in Edges, y \in Edges : /\ Times(x, y) = Times(y, x) /\ Plus(x, y) = Plus(y, x) /\ Minus(Minus(x)) = x /\ (Less(x, y) => ~Less(y, x)) /\ (Less(x, y) \/ Less(y, x) \/ x = y)
        /\ SubSeq(Times(x, Plus(y, <<1>> \o Z7)), 1, 9) = SubSeq(Plus(Times(x, y), x), 1, 9)
=============================================================================
