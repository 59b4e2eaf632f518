-------------------------------- MODULE Trace_Csv --------------------------------
(* Typed tables written as CSV text and read back with dataParseCSV.  A record: heap (no    *)
(* containers), hd the column names, rows of values, args the texts (empty when the text      *)
(* was written by a script), res [k |-> "ok"/"x", v |-> value, h |-> heap], local whether        *)
(* the writing took place in another time zone (then the texts are not read here).                *)
EXTENDS CSV, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Vals(R) == R.rows
\* the harness has to write what the specification reads as the table
WriterOk(R) == R.local \/ R.args = <<>> \/ LET r == DataParseCSV(<<>>, [i \in 1..Len(R.args) |-> Str(R.args[i])]) IN IsTable(r, R.hd, R.rows)
Clause(R) ==
    IF ~WriterOk(R) THEN "the-harness-writes-another-table"
    ELSE IF R.res.k # "ok" THEN "fails"
    ELSE IF R.res.v[1] # "a" \/ \E i \in 1..Len(Items(R.res.h, R.res.v)) : Items(R.res.h, R.res.v)[i][1] # "o" THEN "no-table"
    ELSE IF ~IsTable(R.res, R.hd, R.rows) THEN "another-table"
    ELSE ""
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Len(T[ci].rows)>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
