------------------------------ MODULE Trace_Lint ------------------------------
(* Lint results of the implementation against the meaning of the warnings.          *)
(* A record: codes, fns, main;  warn <<kind, scope, name, index>>, the scope is      *)
(* "f:" and a function name, or "" (global);  again, after: the same warnings were given a         *)
(* second time, the model is unchanged;  edits <<what, run, run of the edited model>>, *)
(* runs as texts that are equal exactly when result, output and final globals are.     *)
EXTENDS Lint, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Kinds(R, k) == {<<R.warn[i][2], R.warn[i][3]>> : i \in {j \in 1..Len(R.warn) : R.warn[j][1] = k}}
\* the scopes with a name: statement lists (several functions may have one name)
Lists(R, s) == IF s = "" THEN {R.codes[R.main]} ELSE {R.codes[R.fns[i].code] : i \in {j \in 1..Len(R.fns) : "f:" \o R.fns[j].name = s}}
Fns(R, s) == {R.fns[i] : i \in {j \in 1..Len(R.fns) : "f:" \o R.fns[j].name = s}}
Scopes(R) == {""} \cup {"f:" \o R.fns[i].name : i \in 1..Len(R.fns)}
Exact(R, Of(_)) == UNION {UNION {{<<s, x>> : x \in Of(c)} : c \in Lists(R, s)} : s \in Scopes(R)}
ExactFns(R, Of(_)) == UNION {UNION {{<<s, x>> : x \in Of(f)} : f \in Fns(R, s)} : s \in Scopes(R)}
WarnOk(R, w) ==
    CASE w[1] = "unused-var" -> \E c \in Lists(R, w[2]) : w[3] \in UnusedVars(c)
      [] w[1] = "unused-arg" -> \E f \in Fns(R, w[2]) : w[3] \in UnusedArgs(f, R.codes[f.code])
      [] w[1] = "unused-label" -> \E c \in Lists(R, w[2]) : w[3] \in UnusedLabels(c)
      [] w[1] = "pointless" -> \E c \in Lists(R, w[2]) : w[4] + 1 \in Pointless(c)
      [] OTHER -> TRUE
Bad(R) == {i \in 1..Len(R.warn) : ~WarnOk(R, R.warn[i])}
BadEdits(R) == {i \in 1..Len(R.edits) : R.edits[i][2] # R.edits[i][3]}
\* the functions defined twice in one list
Dups(R) == UNION {DupFns(R.fns, R.codes[c]) : c \in {R.main} \cup {R.fns[i].code : i \in 1..Len(R.fns)}}
Clause(R) ==
    IF ~R.again THEN "not-the-same-warnings"
    ELSE IF ~R.after THEN "model-modified"
    ELSE IF Bad(R) # {} THEN "unjustified:" \o R.warn[CHOOSE i \in Bad(R) : TRUE][1]
    ELSE IF Kinds(R, "unknown-label") # Exact(R, UnknownLabels) THEN "unknown-labels"
    ELSE IF Kinds(R, "dup-label") # Exact(R, DupLabels) THEN "redefined-labels"
    ELSE IF Kinds(R, "dup-arg") # ExactFns(R, DupArgs) THEN "duplicate-arguments"
    ELSE IF {p[2] : p \in Kinds(R, "dup-fn")} # Dups(R) THEN "redefined-functions"
    ELSE IF BadEdits(R) # {} THEN "edit:" \o R.edits[CHOOSE i \in BadEdits(R) : TRUE][1]
    ELSE ""
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Len(T[ci].warn)>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
