---------------------------------- MODULE Zone ----------------------------------
(* Time zones.  A zone is a sequence of <<day, ms, offset>>: from that UTC instant on    *)
(* local time is offset seconds ahead (the first entry: since ever).                       *)
(* Instants and local times are datetimes as in Calendar, days possibly out of range.        *)
EXTENDS Calendar

Shift(dt, sec) == LET ms == dt[3] + (sec % 86400) * 1000 IN <<"d", dt[2] + (sec \div 86400) + ms \div DMs, ms % DMs, dt[4]>>
NotBefore(u, e) == u[2] > e[1] \/ (u[2] = e[1] /\ u[3] >= e[2])
OffsetAt(z, u) == LET k == CHOOSE k \in 1..Len(z) : (k = 1 \/ NotBefore(u, z[k])) /\ \A j \in (k + 1)..Len(z) : ~NotBefore(u, z[j]) IN z[k][3]
Local(z, u) == Shift(u, OffsetAt(z, u))
\* the offsets with which a local time is written (none: it does not exist, two: it is ambiguous)
OffsetsOf(z, dt) == {o \in {z[k][3] : k \in 1..Len(z)} : OffsetAt(z, Shift(dt, -o)) = o}
InRange(dt) == dt[2] >= 1 /\ dt[2] <= MaxDay
Trunc(dt) == <<"d", dt[2], dt[3], 0>>
Parts(dt) == LET c == Civil(dt[2]) IN <<c[1], c[2], c[3], dt[3] \div 3600000, (dt[3] \div 60000) % 60, (dt[3] \div 1000) % 60, dt[3] % 1000>>
=============================================================================
