------------------------------ MODULE Trace_Expr ------------------------------
(* Parsed expressions of the implementation.  A record: text;                      *)
(* out <<"ok", tree>>, <<"err", column>> or <<"other">> (another exception);         *)
(* tok: the text is a rendering of this tree (or <<>>);  loose: the text is not read *)
EXTENDS Grammar, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Clause(R) ==
    IF R.out[1] = "other" THEN "host-exception"
    ELSE IF R.loose THEN ""
    ELSE LET r == Expr(R.text)
         IN IF r[1] = "open" THEN ""
            ELSE IF r[1] = "ok" THEN (IF R.out[1] # "ok" THEN "rejected" ELSE IF R.out[2] # r[2] THEN "tree" ELSE "")
            ELSE IF R.out[1] = "ok" THEN "accepted"
            ELSE IF R.out[2] < r[2] \/ R.out[2] > r[3] THEN "column"
            ELSE ""
\* the rendering of a tree is read as that tree
Wrong(R) == R.tok # <<>> /\ LET r == Expr(R.text) IN r[1] # "ok" \/ r[2] # R.tok
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), IF T[ci].loose THEN "loose" ELSE Expr(T[ci].text)[1]>>)
        /\ Assert(~Wrong(T[ci]), "rendering") /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
