------------------------------ MODULE MC_Calendar ------------------------------
(* Day numbers and dates are in step: every day of a span of years is followed by the     *)
(* next, numbers and dates are each other's inverse, and date text reads back.              *)
EXTENDS Calendar, TLC

CONSTANTS FirstYear, Years, Rule400    \* Rule400: FALSE leaves the rule out (the negative configuration)
VARIABLES y, m
Init == y = FirstYear - 1 /\ m = 0
Next == \/ m = 0 /\ y = FirstYear - 1 /\ y' \in FirstYear..(FirstYear + Years - 1) /\ m' = m
        \/ m = 0 /\ y >= FirstYear /\ m' \in 1..12 /\ y' = y
Spec == Init /\ [][Next]_<<y, m>>
Days == IF m = 2 /\ ~Rule400 THEN (IF y % 4 = 0 /\ y % 100 # 0 THEN 29 ELSE 28) ELSE MonthDays(y, m)
Successive == m > 0 =>
    \A d \in 1..Days :
        LET n == DayNumber(y, m, d) c == Civil(n)
        IN /\ c = <<y, m, d>>
           /\ Civil(n + 1) = (IF d < Days THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>)
           /\ ParseDate(DateText(n)) = DT(n, 0, 0)
           \* days and months out of range normalise to the same day
           /\ \A k \in {-13, -1, 1, 12, 25} : DayNumber(NormMonth(y + k, m - 12 * k)[1], NormMonth(y + k, m - 12 * k)[2], d) = n
           /\ DayNumber(NormMonth(y, m + 1)[1], NormMonth(y, m + 1)[2], d - Days) = n
=============================================================================
