----------------------------- MODULE Trace_Compare -----------------------------
(* The comparison of the implementation and its consumers on a universe of values.    *)
(* A record: vals, heap;  cmp[i][j] the result of systemCompare (9: not -1, 0, 1);     *)
(*   ops[i][j] the results of < <= == != >= > (booleans);  sorts: arrays of values     *)
(*   that are sorts of vals;  rows <<descending flag, order of row numbers>>: dataSort   *)
(*   of the rows of vals by one key;  two: dataSort by two keys (vals[i], then           *)
(*   vals[Len + 1 - i] descending);  min, max: of the first k values;  first, last:      *)
(*   <<j, index>> of vals[j] in vals.                                                   *)
EXTENDS Values, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
N(R) == Len(R.vals)
C(R, i, j) == Compare(R.vals[i], R.vals[j], R.heap)
Tests(c) == <<c < 0, c <= 0, c = 0, c # 0, c >= 0, c > 0>>
BadCmp(R) == {p \in (1..N(R)) \X (1..N(R)) : R.cmp[p[1]][p[2]] \notin {-1, 0, 1} \/ C(R, p[1], p[2]) \notin {3, R.cmp[p[1]][p[2]]}}
BadOps(R) == {p \in (1..N(R)) \X (1..N(R)) : R.ops[p[1]][p[2]] # Tests(R.cmp[p[1]][p[2]])}
\* the laws, on the observed matrix (where the specification leaves a comparison open)
Reflexive(R) == \A i \in 1..N(R) : R.cmp[i][i] = 0
Antisymmetric(R) == \A i, j \in 1..N(R) : R.cmp[i][j] = -R.cmp[j][i]
Transitive(R) == \A i, j, k \in 1..N(R) : R.cmp[i][j] <= 0 /\ R.cmp[j][k] <= 0 => R.cmp[i][k] <= 0
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Norm0(v) == IF v[1] = "nz" THEN NZero ELSE v
Vals(R) == [i \in 1..N(R) |-> Norm0(R.vals[i])]
IsPerm(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Ordered(s, h) == \A i \in 1..Len(s) - 1 : Compare(s[i], s[i + 1], h) \in {-1, 0, 3}
SortOk(R, s) == IsPerm([i \in 1..Len(s) |-> Norm0(s[i])], Vals(R)) /\ Ordered(s, R.heap)
PermIx(R, s) == Len(s) = N(R) /\ {s[i] : i \in 1..Len(s)} = 1..N(R)
RowsOk(R, d, s) == PermIx(R, s) /\ \A i \in 1..Len(s) - 1 : (IF d THEN C(R, s[i + 1], s[i]) ELSE C(R, s[i], s[i + 1])) \in {-1, 0, 3}
TwoOk(R, s) == PermIx(R, s) /\ \A i \in 1..Len(s) - 1 :
    LET c == C(R, s[i], s[i + 1]) IN c \in {-1, 3} \/ (c = 0 /\ C(R, N(R) + 1 - s[i + 1], N(R) + 1 - s[i]) \in {-1, 0, 3})
IsOneOf(R, k, v) == \E i \in 1..k : Norm0(R.vals[i]) = Norm0(v)
MinOk(R, k, v) == IsOneOf(R, k, v) /\ \A i \in 1..k : Compare(v, R.vals[i], R.heap) \in {-1, 0, 3}
MaxOk(R, k, v) == IsOneOf(R, k, v) /\ \A i \in 1..k : Compare(v, R.vals[i], R.heap) \in {1, 0, 3}
Eqs(R, j) == {i \in 1..N(R) : R.cmp[i][j] = 0}
Ok(R, x) == CASE x[1] = "sort" -> SortOk(R, x[2]) [] x[1] = "rows" -> RowsOk(R, x[2], x[3]) [] x[1] = "two" -> TwoOk(R, x[2])
              [] x[1] = "min" -> MinOk(R, x[2], x[3]) [] x[1] = "max" -> MaxOk(R, x[2], x[3])
              [] x[1] = "first" -> x[3] + 1 \in Eqs(R, x[2]) /\ \A i \in Eqs(R, x[2]) : i >= x[3] + 1
              [] x[1] = "last" -> x[3] + 1 \in Eqs(R, x[2]) /\ \A i \in Eqs(R, x[2]) : i <= x[3] + 1
              [] OTHER -> FALSE
BadUses(R) == {i \in 1..Len(R.uses) : ~Ok(R, R.uses[i])}
Clause(R) ==
    IF R.bad # "" THEN R.bad
    ELSE IF BadCmp(R) # {} THEN "compare:" \o ToString(CHOOSE p \in BadCmp(R) : TRUE)
    ELSE IF BadOps(R) # {} THEN "operator:" \o ToString(CHOOSE p \in BadOps(R) : TRUE)
    ELSE IF ~Reflexive(R) THEN "reflexive" ELSE IF ~Antisymmetric(R) THEN "antisymmetric" ELSE IF ~Transitive(R) THEN "transitive"
    ELSE IF BadUses(R) # {} THEN "use:" \o R.uses[CHOOSE i \in BadUses(R) : TRUE][1]
    ELSE ""
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), 0>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
