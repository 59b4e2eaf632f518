----------------------------- MODULE Trace_Shipped -----------------------------
(* Shipped scripts.  A record: parsed (1, 0), codes, fns, main as in Trace_Lint, model    *)
(* (the model as a value), valid (validate_script accepts it), warn (number of lint          *)
(* warnings), static (exit code of the command line's static analysis, -1: not run),            *)
(* sections: the same for pieces of it.  A script is clean when it is a model, the linter has     *)
(* nothing to say and by the meaning of the exact warnings there is nothing to say.               *)
EXTENDS Lint, Schema, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Lists(R) == {R.codes[R.main]} \cup {R.codes[R.fns[i].code] : i \in 1..Len(R.fns)}
Clause(R) ==
    IF R.parsed # 1 THEN "parse"
    ELSE IF ~IsModel(R.model) THEN "schema"
    ELSE IF R.valid # 1 THEN "validate_script"
    ELSE IF R.warn # 0 THEN "lint-warnings"
    ELSE IF R.static \notin {-1, 0} THEN "static-analysis"
    ELSE IF \E c \in Lists(R) : UnknownLabels(c) # {} THEN "unknown-label"
    ELSE IF \E c \in Lists(R) : DupLabels(c) # {} THEN "label-twice"
    ELSE IF \E i \in 1..Len(R.fns) : DupArgs(R.fns[i]) # {} THEN "argument-twice"
    ELSE IF \E c \in {R.main} \cup {R.fns[i].code : i \in 1..Len(R.fns)} : DupFns(R.fns, R.codes[c]) # {} THEN "function-twice"
    ELSE ""
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Len(T[ci].codes)>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
