------------------------------ MODULE G_Dates ------------------------------
(* Days about every year's end and every end of February of telling years,   *)
(* and every Step-th day of the calendar.                                    *)
EXTENDS Dates
CONSTANTS Depth, Recent, Step
VARIABLES st, hist
Years == {1, 3, 4, 5, 99, 100, 101, 199, 200, 399, 400, 401, 1582, 1600, 1700, 1800, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2025, 2038, 2099, 2100, 2400, 9999}
Days == UNION {{DayNum(31, 12, y) - 1, DayNum(31, 12, y), DayNum(1, 1, y), DayNum(28, 2, y), DayNum(28, 2, y) + 1, DayNum(1, 3, y)} : y \in Years} \cup {Epoch1 + Step * k : k \in 0..(3652058 \div Step)}
Starts == {<<>>}
Calls(s) == UNION {{<<"dmy", Civil(n)>>, <<"tod", <<n, 7>>>>, <<"dow", <<n>>>>, <<"dow3", Civil(n)>>, <<"ftime", <<n - Unix, 86399>>>>, <<"ttime", <<n>>>>,
                    <<"fields", <<n, 86399999, 127>>>>, <<"fields", <<n, 0, 127>>>>, <<"tm", <<n, 0>>>>, <<"rfc822", <<n, 86399999>>>>, <<"sttime", <<n, 86399999>>>>} : n \in Days}
INSTANCE GenBase
\* the calendar and its numbering are inverse, days follow each other, weeks too
Inv == \A n \in Days : LET c == Civil(n)  e == Civil(n + 1) IN
    /\ DayNum(c[1], c[2], c[3]) = n
    /\ e \in {<<c[1] + 1, c[2], c[3]>>, <<1, c[2] + 1, c[3]>>, <<1, 1, c[3] + 1>>}
    /\ Civil(n + 146097) = <<c[1], c[2], c[3] + 400>>
=============================================================================
