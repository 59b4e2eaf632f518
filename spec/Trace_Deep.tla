------------------------------ MODULE Trace_Deep ------------------------------
(* Expressions of any depth, by induction on the depth.  A record: t the template that   *)
(* is nested n times, leaf its innermost value, script: it is the expression of a script's*)
(* return statement, out <<"ok", value>>, <<"err">> (a runtime error) or <<"other">>.       *)
(* The value is the n-th iterate of the template on the value of the leaf.  Very deep       *)
(* expressions may be refused with a runtime error, never with a wrong value.                *)
EXTENDS Machine, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
OneN == <<"n", 1>>
Step(t, v) ==
    CASE t \in {"group", "if-true", "if-false", "call", "and", "or", "alias"} -> v
      [] t = "not" -> UnOp("!", v, <<>>)
      [] t = "minus" -> UnOp("-", v, <<>>)
      [] t = "add-left" -> BinOp("+", v, OneN, <<>>)
      [] t = "add-right" -> BinOp("+", OneN, v, <<>>)
      [] t = "text" -> BinOp("+", v, <<"s", <<97>>>>, <<>>)
      [] t = "compare" -> BinOp("<", v, OneN, <<>>)
      [] t = "both" -> UnOp("!", BinOp("+", OneN, v, <<>>), <<>>)
Iterate(t, n, v) == FoldLeft(LAMBDA acc, i : Step(t, acc), v, [i \in 1..n |-> i])
\* depths that every execution reaches
Reached == 60
Clause(R) ==
    IF R.out[1] = "other" THEN "host-exception"
    ELSE IF R.out[1] = "err" THEN (IF R.n <= Reached THEN "refused" ELSE "")
    ELSE LET v == Iterate(R.t, R.n, R.leaf) IN IF v = Open \/ MatchV(v, R.out[2], <<>>, <<>>, {})[1] THEN "" ELSE "value"
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), T[ci].out[1]>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
