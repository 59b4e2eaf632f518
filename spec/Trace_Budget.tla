------------------------------ MODULE Trace_Budget ------------------------------
(* The runs of one program under several limits, judged against each other.         *)
(* A record: full  the run without limit (or under a large one, when inf is TRUE),    *)
(*   n its statement count; runs [lim, log, k, e, n, out].  Events and outcomes are    *)
(* texts (canonical renderings), equal exactly when what they stand for is equal.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
RunOk(R, r) ==
    IF r.lim = 0 \/ (~R.inf /\ r.lim >= R.n)
    THEN (IF r.log # R.log THEN "other-events" ELSE IF r.out # R.out THEN "other-outcome" ELSE IF r.k = "ok" /\ r.n # R.n THEN "other-count" ELSE "")
    ELSE IF r.k # "err" \/ r.e # "budget" THEN "not-aborted"
    ELSE IF ~Prefix(r.log, R.log) THEN "not-a-prefix"
    ELSE ""
\* more statements never show less
RECURSIVE Growing(_, _)
Growing(rs, i) == i >= Len(rs) \/ ((rs[i].lim > 0 /\ rs[i].lim <= rs[i + 1].lim => Prefix(rs[i].log, rs[i + 1].log)) /\ Growing(rs, i + 1))
Bads(R) == {i \in 1..Len(R.runs) : RunOk(R, R.runs[i]) # ""}
Clause(R) == IF Bads(R) # {} THEN RunOk(R, R.runs[CHOOSE i \in Bads(R) : \A j \in Bads(R) : i <= j])
             ELSE IF ~Growing(R.runs, 1) THEN "not-monotone" ELSE ""
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), 0>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
