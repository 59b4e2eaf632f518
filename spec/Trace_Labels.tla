----------------------------- MODULE Trace_Labels -----------------------------
(* Label discipline of parsed models.  A record: scopes, for the global list and each   *)
(* function in order, <<what, name>> with what "L" (a label) or "J" (a jump) in order;   *)
(* user, the same for what the source text itself has;  lint <<kind, scope number,        *)
(* name>> the label warnings (scope -1: not known);  unknown, the labels that runs of it    *)
(* did not find;  model, the model as a value (or <<>>);  valid, whether validate_script      *)
(* accepts it (1, 0).                                                                       *)
EXTENDS Schema, Integers, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Of(c, k) == SelectSeq(c, LAMBDA e : e[1] = k)
Count(c, l) == Cardinality({i \in 1..Len(c) : c[i][2] = l})
Names(c) == {c[i][2] : i \in 1..Len(c)}
\* emitted: a label (target) the source does not have in that scope
ScopeOk(c, u) ==
    LET defs == Of(c, "L") jumps == Of(c, "J") ud == Of(u, "L") uj == Of(u, "J")
        IN /\ \A l \in Names(jumps) \ Names(uj) : Count(defs, l) = 1
           /\ \A l \in Names(defs) \ Names(ud) : l \in Names(jumps)
           \* what the source has is there, and nothing else of these names
           /\ \A l \in Names(ud) : Count(defs, l) = Count(ud, l)
           /\ \A l \in Names(uj) : Count(jumps, l) = Count(uj, l)
BadScopes(R) == {i \in 1..Len(R.scopes) : ~ScopeOk(R.scopes[i], R.user[i])}
\* a label warning is about what the source has
BadLint(R) == {i \in 1..Len(R.lint) : LET w == R.lint[i] IN \A s \in (IF w[2] = -1 THEN 1..Len(R.user) ELSE {w[2]} \cap 1..Len(R.user)) : w[3] \notin Names(R.user[s])}
UserJumps(R) == UNION {Names(Of(R.user[i], "J")) : i \in 1..Len(R.user)}
Clause(R) ==
    IF Len(R.model) > 0 /\ ~IsModel(R.model) THEN "schema"
    ELSE IF R.valid # 1 THEN "validate_script"
    ELSE IF Len(R.user) = 0 THEN ""
    ELSE IF Len(R.scopes) # Len(R.user) THEN "scopes"
    ELSE IF BadScopes(R) # {} THEN "labels:" \o ToString(CHOOSE i \in BadScopes(R) : TRUE)
    ELSE IF BadLint(R) # {} THEN "lint:" \o R.lint[CHOOSE i \in BadLint(R) : TRUE][1]
    ELSE IF \E i \in 1..Len(R.unknown) : R.unknown[i] \notin UserJumps(R) THEN "unknown-label-at-run-time"
    ELSE ""
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Len(T[ci].scopes)>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
