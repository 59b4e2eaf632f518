----------------------------- MODULE Trace_Layout -----------------------------
(* Layouts of one program.  A record is a sequence of <<pieces of the text, result,    *)
(* model>>; results are equal exactly when the parsed models, or the errors, are, models  *)
(* when the models are or both are errors.  The same text has the same result whenever it *)
(* is parsed; layouts with the same reading (see Grammar) have the same model.           *)
EXTENDS Grammar, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Clause(R) ==
    LET n == Len(R)
        same == {i \in 2..n : R[i][1] = R[1][1]}
        first == Reading(R[1][1])
        reads == [i \in 1..n |-> IF R[i][1] = R[1][1] THEN first ELSE Reading(R[i][1])]
        other == {i \in 2..n : first[1] = "ok" /\ reads[i] = first}
        bad1 == {i \in same : R[i][2] # R[1][2]}
        bad2 == {i \in other : R[i][3] # R[1][3]}
        lost == IF first[1] = "ok" THEN Cardinality({i \in 2..n : reads[i] # first}) ELSE 0
    IN <<IF bad1 # {} THEN "not-deterministic:" \o ToString(CHOOSE i \in bad1 : TRUE)
         ELSE IF bad2 # {} THEN "layout:" \o ToString(CHOOSE i \in bad2 : TRUE)
         ELSE "", IF first[1] = "no" THEN "open" ELSE "lost " \o ToString(lost)>>
Init == ci = 1
Next == ci <= NT /\ LET c == Clause(T[ci]) IN PrintT(<<"VERDICT", ci, c[1], c[2]>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
