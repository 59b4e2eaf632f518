------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar, datetimes and ISO text.                  *)
(* A datetime is <<"d", day, ms, us>>: day 1 is 0001-01-01, ms is the          *)
(* millisecond of the day, us the microseconds below it (host datetimes).     *)
EXTENDS F64

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF IsLeap(y) THEN 29 ELSE 28) [] OTHER -> 31
\* days of the year before month m
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBefore(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
\* day number (any year, any day-of-month)
DayNumber(y, m, d) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + DaysBefore(y, m) + d
\* month normalisation: <<year, month>> of month number m of year y
NormMonth(y, m) == <<y + (m - 1) \div 12, ((m - 1) % 12) + 1>>

MaxDay == 3652059     \* 9999-12-31
DMs == 86400000
RECURSIVE FindYear(_, _)
FindYear(y, n) == IF DayNumber(y + 1, 1, 1) <= n THEN FindYear(y + 1, n) ELSE y
RECURSIVE FindMonth(_, _, _)
FindMonth(y, m, n) == IF m < 12 /\ DayNumber(y, m + 1, 1) <= n THEN FindMonth(y, m + 1, n) ELSE m
\* <<year, month, day>> of a day number
Civil(n) ==
    LET y0 == MaxI(1, ((n - 1) * 10) \div 3653)     \* never after the year
        y == FindYear(y0, n)
        m == FindMonth(y, 1, n)
    IN <<y, m, n - DayNumber(y, m, 1) + 1>>

DT(day, ms, us) == <<"d", day, ms, us>>
DTCmp(a, b) == IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
               ELSE IF a[3] # b[3] THEN (IF a[3] < b[3] THEN -1 ELSE 1)
               ELSE IF a[4] # b[4] THEN (IF a[4] < b[4] THEN -1 ELSE 1) ELSE 0

\* a small integer quotient/remainder pair of an integral number by k: <<number, int>>
\* (floor division)
FloorDiv(v, k) ==
    IF v[1] = "n" THEN <<<<"n", v[2] \div k>>, v[2] % k>>
    ELSE IF v[1] = "nz" THEN <<NZero, 0>>
    ELSE LET r == BDivMod(BShl(v[3], v[4]), OfInt(k))
             q == r[1] m == ToInt(r[2])
         IN IF v[2] = 0 THEN <<Canon(0, q, 0), m>>
            ELSE IF m = 0 THEN <<Canon(1, q, 0), 0>>
            ELSE <<Canon(1, BAdd(q, <<1>>), 0), k - m>>

\* the number of milliseconds of <<days, ms>> (both TLC integers)
MsNumber(days, ms) == NAdd(NMul(<<"n", days>>, <<"n", DMs>>), <<"n", ms>>)

\* datetime + an integral number of milliseconds: a datetime or <<"none">>
DTPlus(dt, v) ==
    LET r == FloorDiv(v, DMs)
    IN IF r[1][1] # "n" \/ AbsI(r[1][2]) > 4000000 THEN <<"none">>
       ELSE LET ms == dt[3] + r[2]
                day == dt[2] + r[1][2] + (ms \div DMs)
            IN IF day < 1 \/ day > MaxDay THEN <<"none">> ELSE DT(day, ms % DMs, dt[4])

\* datetime - datetime: milliseconds (<<"none">>: not a whole number of milliseconds - left open)
DTMinus(a, b) == IF a[4] # b[4] THEN AnyNum ELSE MsNumber(a[2] - b[2], a[3] - b[3])

\* datetimeNew: components are integral numbers, the result is normalised; <<"none">> when it does not exist
\* or a component is beyond exact reach
Huge(v) == IsFinite(v) /\ BBitLen(Mag(v)) + Exp2(v) > 50
DTNew(y, mo, d, h, mi, s, ms) ==
    IF \E v \in {y, mo, d, h, mi, s, ms} : Huge(v) THEN <<"open">>
    ELSE LET a == FloorDiv(ms, 1000)
             b == FloorDiv(NAdd(s, a[1]), 60)
             c == FloorDiv(NAdd(mi, b[1]), 60)
             e == FloorDiv(NAdd(h, c[1]), 24)
             dd == NAdd(d, e[1])
         IN IF dd[1] \notin {"n", "nz"} \/ AbsI(NInt(dd)) > 8000000 \/ mo[1] \notin {"n", "nz"} \/ AbsI(NInt(mo)) > 1000000
               \/ y[1] \notin {"n", "nz"} \/ AbsI(NInt(y)) > 1000000 THEN <<"none">>
            ELSE LET ym == NormMonth(NInt(y), NInt(mo))
                     day == IF AbsI(ym[1]) > 50000 THEN 0 ELSE DayNumber(ym[1], ym[2], NInt(dd))
                 IN IF day < 1 \/ day > MaxDay THEN <<"none">>
                    ELSE DT(day, ((e[2] * 60 + c[2]) * 60 + b[2]) * 1000 + a[2], 0)

\* ---- ISO text -------------------------------------------------------------------
P2D(k) == Pad(NatText(k), 2)
DateText(n) == LET c == Civil(n) IN Pad(NatText(c[1]), 4) \o <<45>> \o P2D(c[2]) \o <<45>> \o P2D(c[3])
TimeText(ms, us) == P2D(ms \div 3600000) \o <<58>> \o P2D((ms \div 60000) % 60) \o <<58>> \o P2D((ms \div 1000) % 60)
                \o (IF ms % 1000 = 0 /\ us = 0 THEN <<>> ELSE <<46>> \o Pad(NatText(ms % 1000), 3))
\* offset in minutes
OffText(o) == <<IF o < 0 THEN 45 ELSE 43>> \o P2D(AbsI(o) \div 60) \o <<58>> \o P2D(AbsI(o) % 60)
ISOText(dt, off) == DateText(dt[2]) \o <<84>> \o TimeText(dt[3], dt[4]) \o OffText(off)

Dig(t, i) == t[i] - 48
IsDigits(t, i, n) == \A k \in i..(i + n - 1) : k <= Len(t) /\ IsDigit(t[k])
Num(t, i, n) == DigInt(SubSeq(t, i, i + n - 1), 1, 0)
Is(t, i, c) == i <= Len(t) /\ t[i] = c
DateShape(t) == IsDigits(t, 1, 4) /\ Is(t, 5, 45) /\ IsDigits(t, 6, 2) /\ Is(t, 8, 45) /\ IsDigits(t, 9, 2)
DateOk(t) == LET y == Num(t, 1, 4) m == Num(t, 6, 2) d == Num(t, 9, 2)
             IN y >= 1 /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= MonthDays(y, m)
\* the local datetime written by ISO date text, or <<"none">>
ParseDate(t) == IF DateShape(t) /\ Len(t) = 10 /\ DateOk(t) THEN DT(DayNumber(Num(t, 1, 4), Num(t, 6, 2), Num(t, 9, 2)), 0, 0) ELSE <<"none">>
\* the UTC instant written by ISO datetime text: <<"d", day, ms, 0>> with day possibly 0 or MaxDay+1, or <<"none">>
ParseInstant(t) ==
    IF ~(DateShape(t) /\ Is(t, 11, 84) /\ IsDigits(t, 12, 2) /\ Is(t, 14, 58) /\ IsDigits(t, 15, 2) /\ Is(t, 17, 58) /\ IsDigits(t, 18, 2)) THEN <<"none">>
    ELSE LET frac == Is(t, 20, 46)
             fe == IF frac THEN DigitsEnd(t, 21) ELSE 20
             nf == IF frac THEN fe - 21 ELSE 0
             fd == IF frac THEN SubSeq(t, 21, fe - 1) \o <<48, 48, 48>> ELSE <<48, 48, 48>>
             ms3 == DigInt(SubSeq(fd, 1, 3), 1, 0)
             z == Is(t, fe, 90) /\ Len(t) = fe
             o == fe <= Len(t) /\ t[fe] \in {43, 45} /\ IsDigits(t, fe + 1, 2) /\ Is(t, fe + 3, 58) /\ IsDigits(t, fe + 4, 2) /\ Len(t) = fe + 5
             hh == Num(t, 12, 2) mm == Num(t, 15, 2) ss == Num(t, 18, 2)
         IN IF frac /\ (nf < 1 \/ nf > 6) THEN <<"none">>
            ELSE IF ~z /\ ~o THEN <<"none">>
            ELSE IF ~DateOk(t) \/ hh > 23 \/ mm > 59 \/ ss > 59 THEN <<"none">>
            ELSE LET oh == IF o THEN Num(t, fe + 1, 2) ELSE 0
                     om == IF o THEN Num(t, fe + 4, 2) ELSE 0
                     off == (IF o /\ t[fe] = 45 THEN -1 ELSE 1) * (oh * 60 + om)
                     tot == ((hh * 60 + mm) * 60 + ss) * 1000 + ms3 - off * 60000
                     day == DayNumber(Num(t, 1, 4), Num(t, 6, 2), Num(t, 9, 2)) + tot \div DMs
                 IN IF om > 59 \/ oh > 23 THEN <<"none">> ELSE DT(day, tot % DMs, 0)
=============================================================================
