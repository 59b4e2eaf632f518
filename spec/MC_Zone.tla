-------------------------------- MODULE MC_Zone --------------------------------
(* ISO text in time zones: for zones with a gap and a fold of several sizes at several   *)
(* places and every quarter of an hour around them, the text of a local time that exists,    *)
(* with any of its offsets, reads back as that time; times in a gap have no text.             *)
(* (Hours: offsets are written in whole hours, which does not read back.)                      *)
EXTENDS Zone, FiniteSets, TLC

CONSTANTS Hours
Bases == {-720, -300, 0, 330, 345, 765}
Changes == {-60, 60, 30, -1440, 1440}
VARIABLES base, change, at, t
vars == <<base, change, at, t>>
\* a change at some quarter of day 10, back at day 15
Zn == <<<<0, 0, base * 60>>, <<10, at * 900000, (base + change) * 60>>, <<15, at * 900000, base * 60>>>>
Init == base \in Bases /\ change \in Changes /\ at \in {0, 4, 8, 95} /\ t = -1
\* local times by the quarter hour
Next == t = -1 /\ t' \in 0..(9 * 96) /\ UNCHANGED <<base, change, at>>
Spec == Init /\ [][Next]_vars
D == <<"d", 8 + t \div 96, (t % 96) * 900000, 0>>
Written(o) == IF Hours THEN (IF o < 0 THEN -1 ELSE 1) * ((AbsI(o) \div 3600) * 60) ELSE (IF o < 0 THEN -1 ELSE 1) * (AbsI(o) \div 60)
Text(o) == ISOText(D, Written(o))
RoundTrip == t >= 0 => \A o \in OffsetsOf(Zn, D) : AbsI(o) < 86400 => Local(Zn, ParseInstant(Text(o))) = D
\* as many quarters are in the gap as the change skips; as many are ambiguous as it repeats
Sound == t >= 0 => (Cardinality(OffsetsOf(Zn, D)) \in {0, 1, 2})
=============================================================================
