------------------------------- MODULE Dates -------------------------------
(* Dates and timestamps: days of the Gregorian calendar numbered from 24     *)
(* November 4714 BC, and milliseconds of them. A timestamp is written <<day  *)
(* number, milliseconds of the day>>; a system time <<days from 1 January    *)
(* 1970, seconds of the day>>. Years from 1 to 9999 or so.                    *)
EXTENDS Bytes, SequencesExt
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
Before(y, m) == FoldLeft(LAMBDA a, i : a + MonthDays(y)[i], 0, [i \in 1..(m - 1) |-> i])
\* days of the years before y, then of the months before m
Epoch1 == 1721426                                                          \* 1 January of year 1
YearStart(y) == Epoch1 + 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
DayNum(d, m, y) == YearStart(y) + Before(y, m) + d - 1
Unix == DayNum(1, 1, 1970)
YearOf(n) == LET g == (n - Epoch1) \div 366 + 1 IN CHOOSE y \in g..(g + 30) : YearStart(y) <= n /\ n < YearStart(y + 1)
Civil(n) == LET y == YearOf(n)  k == n - YearStart(y)  m == CHOOSE m \in 1..12 : Before(y, m) <= k /\ k < Before(y, m) + MonthDays(y)[m] IN <<k - Before(y, m) + 1, m, y>>
Weekday(n) == n % 7                                                        \* 0 is Monday
DayMs == 86400000
Carry(n, ms) == <<n + ms \div DayMs, ms % DayMs>>
Hms(ms) == <<ms \div 3600000, (ms \div 60000) % 60, (ms \div 1000) % 60, ms % 1000>>
Shown(v, mask) == [i \in 1..Len(v) |-> IF (mask \div 2 ^ (i - 1)) % 2 = 1 THEN v[i] ELSE -1] \o <<>>
\* the fields of struct tm: second, minute, hour, day, month - 1, year - 1900, weekday from Sunday, day of the year, daylight saving
Tm(n, ms) == LET c == Civil(n)  t == Hms(ms) IN <<t[3], t[2], t[1], c[1], c[2] - 1, c[3] - 1900, (Weekday(n) + 1) % 7, n - YearStart(c[3]), 0>>
\* formatting
Digits(n) == LET RECURSIVE D(_) D(k) == IF k < 10 THEN <<48 + k>> ELSE D(k \div 10) \o <<48 + (k % 10)>> IN D(n)
Pad(n, w) == LET d == Digits(n) IN [i \in 1..(IF w > Len(d) THEN w - Len(d) ELSE 0) |-> 48] \o d
WeekNames == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
Codes == [Monday |-> <<77, 111, 110, 100, 97, 121>>, Tuesday |-> <<84, 117, 101, 115, 100, 97, 121>>, Wednesday |-> <<87, 101, 100, 110, 101, 115, 100, 97, 121>>,
          Thursday |-> <<84, 104, 117, 114, 115, 100, 97, 121>>, Friday |-> <<70, 114, 105, 100, 97, 121>>, Saturday |-> <<83, 97, 116, 117, 114, 100, 97, 121>>, Sunday |-> <<83, 117, 110, 100, 97, 121>>]
Week(n) == Codes[WeekNames[Weekday(n) + 1]]
Months == << <<74, 97, 110, 117, 97, 114, 121>>, <<70, 101, 98, 114, 117, 97, 114, 121>>, <<77, 97, 114, 99, 104>>, <<65, 112, 114, 105, 108>>, <<77, 97, 121>>, <<74, 117, 110, 101>>,
             <<74, 117, 108, 121>>, <<65, 117, 103, 117, 115, 116>>, <<83, 101, 112, 116, 101, 109, 98, 101, 114>>, <<79, 99, 116, 111, 98, 101, 114>>,
             <<78, 111, 118, 101, 109, 98, 101, 114>>, <<68, 101, 99, 101, 109, 98, 101, 114>> >>
RECURSIVE Format(_, _, _)
Field(f, n, ms) ==
    LET c == Civil(n)  t == Hms(ms) IN
    CASE f = 97 -> SubSeq(Week(n), 1, 3) [] f = 65 -> Week(n)
      [] f \in {98, 104} -> SubSeq(Months[c[2]], 1, 3) [] f = 66 -> Months[c[2]]
      [] f = 100 -> Pad(c[1], 2) [] f = 109 -> Pad(c[2], 2) [] f = 89 -> Digits(c[3]) [] f = 121 -> Pad(c[3] % 100, 2)
      [] f = 72 -> Pad(t[1], 2) [] f = 77 -> Pad(t[2], 2) [] f = 83 -> Pad(t[3], 2) [] f = 73 -> Pad(IF t[1] % 12 = 0 THEN 12 ELSE t[1] % 12, 2)
      [] f = 112 -> IF t[1] < 12 THEN <<65, 77>> ELSE <<80, 77>>
      [] f = 106 -> Pad(n - YearStart(c[3]) + 1, 3)
      [] f = 117 -> Digits(Weekday(n) + 1) [] f = 119 -> Digits((Weekday(n) + 1) % 7)
      [] f = 68 -> Format(<<37, 109, 47, 37, 100, 47, 37, 121>>, n, ms) [] f = 84 -> Format(<<37, 72, 58, 37, 77, 58, 37, 83>>, n, ms) [] f = 82 -> Format(<<37, 72, 58, 37, 77>>, n, ms)
      [] f = 85 -> Pad((n - YearStart(c[3]) + 7 - ((Weekday(n) + 1) % 7)) \div 7, 2)          \* weeks from the first Sunday
      [] f = 87 -> Pad((n - YearStart(c[3]) + 7 - Weekday(n)) \div 7, 2)                      \* weeks from the first Monday
      [] f = 110 -> <<10>> [] f = 116 -> <<9>> [] OTHER -> <<37>>
Format(f, n, ms) ==
    LET Step(x, c) == IF x.p THEN [p |-> FALSE, o |-> x.o \o Field(c, n, ms)] ELSE IF c = 37 THEN [p |-> TRUE, o |-> x.o] ELSE [p |-> FALSE, o |-> Append(x.o, c)] IN
    FoldLeft(Step, [p |-> FALSE, o |-> <<>>], f).o
Rfc822 == <<37, 97, 44, 32, 37, 100, 32, 37, 98, 32, 37, 89, 32, 37, 72, 58, 37, 77, 58, 37, 83, 32, 71, 77, 84>>
Start(a) == {<<>>}
Eval(st, op, a) ==
    LET R(r) == {[r |-> r, s |-> st]} IN
    CASE op = "dmy" -> R(<<DayNum(a[1], a[2], a[3])>>)
      [] op = "tod" -> R(Shown(Civil(a[1]), a[2]))
      [] op = "dow" -> R(<<Weekday(a[1])>>)
      [] op = "dow3" -> R(<<Weekday(DayNum(a[1], a[2], a[3]))>>)
      [] op = "ftime" -> R(<<Unix + a[1]>>)                                \* days, seconds; the same from a timespec
      [] op = "ttime" -> R(<<a[1] - Unix, 0>>)
      [] op = "year" -> R([i \in 1..24 |-> IF i % 2 = 1 THEN DayNum(1, (i + 1) \div 2, a[1]) ELSE MonthDays(a[1])[i \div 2]] \o <<>>)
      [] op = "month" -> LET y == a[1] m == a[2] IN R(FoldLeft(LAMBDA x, d : x \o <<d, m, y>>, <<>>, [d \in 1..MonthDays(y)[m] |-> d]))   \* every day of a month
      \* timestamps
      [] op = "stamp" -> LET s == a[4] * 3600 + a[5] * 60 + a[6] + a[7] \div 1000  n == DayNum(a[1], a[2], a[3]) IN R(Carry(n + s \div 86400, (s % 86400) * 1000 + (a[7] % 1000)))
      [] op = "fields" -> R(Shown(Civil(a[1]) \o Hms(a[2]), a[3]))
      [] op = "sftime" -> R(<<Unix + a[1], a[2] * 1000>>)
      [] op = "sfspec" -> R(<<Unix + a[1], a[2] * 1000 + a[3] \div 1000000>>)
      [] op = "sttime" -> R(<<a[1] - Unix, a[2] \div 1000>>)
      [] op = "todate" -> R(<<a[1]>>)
      [] op = "fromdate" -> R(<<a[1], 0>>)
      [] op = "tm" -> R(Tm(a[1], a[2]))
      [] op = "text" -> R(Format(SubSeq(a, 4, Len(a)), a[2], a[3]))
      [] op = "longtext" -> R(LET f == SubSeq(a, 5, Len(a))  t == Format(f, a[2], a[3]) IN [i \in 1..(a[4] * Len(t)) |-> t[((i - 1) % Len(t)) + 1]] \o <<>>)
      [] op = "rfc822" -> R(Format(Rfc822, a[1], a[2]))
      [] op = "now" -> R(<<1, 1>>)                                         \* between two looks at the clock
      [] OTHER -> {}
=============================================================================
