----------------------------- MODULE G_TypedIO -----------------------------
EXTENDS TypedIO
CONSTANTS Depth, Recent
VARIABLES st, hist
Starts == {<<c, f, cap>> : c \in {0, 1, 3}, f \in {1, 2}, cap \in {-1, 9}}
Puts == {<<"put", <<2, 255, 127>>>>, <<"put", <<7, 1, 2, 3, 4>>>>, <<"put", <<11, 10>>>>, <<"putstr", <<1, 0, 65, 13, 10>>>>, <<"putstr", <<2, 0, 65, 0>>>>,
         <<"putcoll", <<6, 2, 0, 0, 0, 1, 2, 3, 4>>>>, <<"putcoll", <<20, 1, 0, 0, 0, 0, 0, 0, 0>>>>, <<"putcoll", <<22, 2, 0, 0, 0, 2, 1, 1, 2>>>>,
         <<"putcoll", <<24, 2, 0, 0, 0, 2, 1, 2, 1>>>>, <<"fill", <<7, 1>>>>}
Gets == {<<"get", <<1>>>>, <<"get", <<2>>>>, <<"get", <<7>>>>, <<"getstr", <<1>>>>, <<"getstr", <<2>>>>, <<"getcoll", <<6>>>>, <<"getcoll", <<20>>>>,
         <<"getcoll", <<22>>>>, <<"getcoll", <<24>>>>, <<"getcoll", <<21>>>>, <<"array", <<2, 2>>>>, <<"readln", <<1>>>>, <<"readln", <<2>>>>, <<"skip", <<1>>>>,
         <<"remainder", <<-1>>>>, <<"remainder", <<3>>>>, <<"byte", <<>>>>}
\* writes first; then reads
Calls(s) == IF s.p = 0 /\ Len(s.d) < 12 /\ s.s = OK THEN Puts \cup Gets ELSE Gets \cup {<<"flush", <<>>>>}
INSTANCE GenBase
Inv == st.p <= Len(st.d) /\ (st.cap >= 0 => Len(st.d) <= st.cap)
=============================================================================
