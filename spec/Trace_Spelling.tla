---------------------------- MODULE Trace_Spelling ----------------------------
(* One number type: runs of one program on the same values, the integral numbers       *)
(* held in different ways by the host.  A record is a sequence of runs, each with       *)
(*   log   the recorded events (calls of host functions with their arguments, lines,    *)
(*         failing calls in debug mode)                                                 *)
(*   out   the outcome: result, error, final globals (see Observe)                      *)
(* All of them have to be the same, containers up to a renaming of their references.    *)
EXTENDS Observe, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci

\* a recorded event as one of the machine
SameEvent(e, r) == e[1] = r[1] /\ EventOk(e, r)
LogDiff(a, b) == LET n == MinI(Len(a), Len(b)) s == {i \in 1..n : ~SameEvent(a[i], b[i])}
                 IN IF s # {} THEN CHOOSE i \in s : \A j \in s : i <= j ELSE IF Len(a) # Len(b) THEN n + 1 ELSE 0
GNames(o) == {o.g[i][1] : i \in 1..Len(o.g)}
SameRun(a, b) ==
    LET x == a.out y == b.out
        d == LogDiff(a.log, b.log)
        g == ArgOf(x.g)
        res == MatchV(x.v, y.v, x.h, y.h, {})
    IN IF d # 0 THEN "event:" \o ToString(d)
       ELSE IF x.k # y.k THEN "outcome:" \o x.k \o "/" \o y.k
       ELSE IF x.k = "err" /\ x.e # y.e THEN "error"
       ELSE IF ~res[1] THEN "result"
       ELSE IF GNames(x) # GNames(y) THEN "global-names"
       ELSE LET m == MatchGlobals(y.g, 1, g, x.h, y.h, res[2]) IN IF m[1] THEN "" ELSE "globals"
BadRuns(R) == {i \in 2..Len(R.runs) : SameRun(R.runs[1], R.runs[i]) # ""}
Clause(R) == IF BadRuns(R) = {} THEN "" ELSE LET i == CHOOSE i \in BadRuns(R) : TRUE IN "spelling-" \o ToString(i) \o ":" \o SameRun(R.runs[1], R.runs[i])
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), 0>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
