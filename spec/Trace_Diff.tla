------------------------------- MODULE Trace_Diff -------------------------------
(* Results of diffLines.  A record: calls <<left texts, right texts, same, blocks>>:        *)
(* the sides as lists of texts (a text alone is a list of one), same 1 when both arguments     *)
(* are the same value, blocks <<type, lines>>, or <<"?", <<>>>> for anything else.               *)
EXTENDS Diff, Integers, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
CallBad(c) ==
    LET w == Walk(AllLines(c[1]), AllLines(c[2]), <<0, 0>>, c[4], 1)
    IN IF w # "" THEN w
       ELSE IF c[3] = 1 /\ \E k \in 1..Len(c[4]) : c[4][k][1] # "Identical" THEN "identical-inputs"
       ELSE ""
Bad(R) == {i \in 1..Len(R.calls) : CallBad(R.calls[i]) # ""}
Clause(R) == LET b == Bad(R) IN IF b = {} THEN "" ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN ToString(i) \o ":" \o CallBad(R.calls[i])
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Len(T[ci].calls)>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
