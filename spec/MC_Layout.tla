------------------------------ MODULE MC_Layout ------------------------------
(* What a layout may change: blank and comment lines, indentation, spaces at the end   *)
(* of a line, the line end, pieces, and breaks at a space outside of quotes leave the    *)
(* reading of a text as it is.                                                          *)
EXTENDS Grammar, TLC

CONSTANTS Steps, Quoted      \* breaks also inside of quotes: they do change it

\* x = 'a # b' + c      if [a b] == "q\\":  /  f( 1 )  /  endif
Bases == { << <<120, 32, 61, 32, 39, 97, 32, 35, 32, 98, 39, 32, 43, 32, 99>> >>,
           << <<105, 102, 32, 91, 97, 32, 98, 93, 32, 61, 61, 32, 34, 113, 92, 92, 34, 32, 58>>, <<102, 40, 32, 49, 32, 41>>, <<101, 110, 100, 105, 102>> >>,
           << <<102, 111, 114, 32, 97, 32, 105, 110, 32, 98, 58>>, <<97, 32, 58>>, <<101, 110, 100, 102, 111, 114>> >> }
Fill == { <<>>, <<32, 9>>, <<35, 32, 120, 32, 92>> }
VARIABLES base, lines, n, crlf, cut
vars == <<base, lines, n, crlf, cut>>
Init == base \in Bases /\ lines = base /\ n = 0 /\ crlf = FALSE /\ cut = 0
At2(s, i, new) == SubSeq(s, 1, i - 1) \o new \o SubSeq(s, i + 1, Len(s))
\* the spaces of a line outside of quotes (and after its first character)
RECURSIVE Spots(_, _, _)
Spots(l, i, q) ==
    IF i > Len(l) THEN {}
    ELSE IF q # 0 THEN (IF l[i] = 92 THEN Spots(l, i + 2, q) ELSE Spots(l, i + 1, IF l[i] = q THEN 0 ELSE q)) \cup (IF Quoted /\ l[i] = 32 THEN {i} ELSE {})
    ELSE (IF l[i] = 32 /\ Sk(l, 1) < i /\ Sk(l, i) <= Len(l) THEN {i} ELSE {}) \cup Spots(l, i + 1, IF l[i] \in {39, 34} THEN l[i] ELSE IF l[i] = 91 THEN 93 ELSE 0)
Change == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<base, crlf, cut>>
          /\ \/ \E i \in 0..Len(lines), f \in Fill : lines' = SubSeq(lines, 1, i) \o <<f>> \o From(lines, i + 1)
             \/ \E i \in 1..Len(lines) : ~IsComment(lines[i]) /\ \E b \in {<<32>>, <<9, 32>>} : lines' = At2(lines, i, <<b \o lines[i]>>)
             \/ \E i \in 1..Len(lines) : \E b \in {<<32>>, <<9>>} : lines' = At2(lines, i, <<lines[i] \o b>>)
             \/ \E i \in 1..Len(lines) : ~IsComment(lines[i]) /\ \E k \in Spots(lines[i], 1, 0) : \E e \in {<<92>>, <<32, 92, 32>>} :
                    lines' = At2(lines, i, <<SubSeq(lines[i], 1, k - 1) \o e, From(lines[i], k)>>)
Ends == n = Steps /\ n' = n + 1 /\ UNCHANGED <<base, lines>> /\ crlf' \in {TRUE, FALSE} /\ cut' \in 0..Len(lines)
Next == Change \/ Ends
Spec == Init /\ [][Next]_vars
Joined(ls) == JoinWith(ls, IF crlf THEN <<13, 10>> ELSE <<10>>)
Parts == IF cut = 0 \/ cut >= Len(lines) THEN <<Joined(lines)>> ELSE <<Joined(SubSeq(lines, 1, cut)), Joined(From(lines, cut + 1))>>
SameReading == Reading(Parts) = Reading(<<JoinWith(base, <<10>>)>>) /\ Reading(Parts)[1] = "ok"
=============================================================================
