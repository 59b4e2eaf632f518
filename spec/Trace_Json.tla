------------------------------- MODULE Trace_Json -------------------------------
(* JSON texts of values.  A record: heap, value, outs: <<how, text, value read back by      *)
(* jsonParse (or <<"x">>)>> for every way the value was written.  A text is JSON that a      *)
(* standard reader (JSONRead) and jsonParse map to the value, with its keys in order, every     *)
(* key once, and no fraction in integral numbers.                                                 *)
EXTENDS JSONRead, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
RECURSIVE KeysUp(_, _)
KeysUp(ps, i) == i >= Len(ps) \/ (TCmp(ps[i][1], ps[i + 1][1]) < 0 /\ KeysUp(ps, i + 1))
\* outside of strings: <<numbers with a point whose value is integral, colons>>
RECURSIVE Scan(_, _, _)
StrEnd(t, i) == RdStr(t, i + 1, <<>>)[2]
Scan(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF t[i] = 34 THEN Scan(t, StrEnd(t, i), acc)
    ELSE IF t[i] = 45 \/ IsDigit(t[i])
         THEN LET e == RdNumEnd(t, i) s == SubSeq(t, i, e - 1)
                  frac == (\E k \in 1..Len(s) : s[k] = 46)
                  \* 1.5e+22 has a point and no fraction that could go
                  bare == \A k \in 1..Len(s) : s[k] \notin {69, 101}
              IN Scan(t, e, <<acc[1] + (IF frac /\ IsIntegral(ReadNumber(s)) /\ (bare \/ \E k \in 1..(Len(s) - 1) : s[k] = 48 /\ s[k + 1] \in {69, 101} /\ frac) THEN 1 ELSE 0), acc[2]>>)
    ELSE Scan(t, i + 1, IF t[i] = 58 THEN <<acc[1], acc[2] + 1>> ELSE acc)
Members(h, n) == FoldLeft(LAMBDA acc, c : acc + (IF c[1] = "o" THEN Len(c[2]) ELSE 0), 0, SubSeq(h, n + 1, Len(h)))
OutBad(R, o) ==
    LET r == ReadJSON(o[2], R.heap)
        new == r[3]
        sc == Scan(o[2], 1, <<0, 0>>)
    IN IF r[1] = "open" THEN "not-JSON"
       ELSE IF r[1] # "ok" THEN "not-JSON"
       ELSE IF Compare(r[2], R.value, new) # 0 THEN "another-value"
       ELSE IF \E k \in (Len(R.heap) + 1)..Len(new) : new[k][1] = "o" /\ ~KeysUp(new[k][2], 1) THEN "key-order"
       ELSE IF sc[2] # Members(new, Len(R.heap)) THEN "key-twice"
       ELSE IF sc[1] > 0 THEN "fraction"
       ELSE IF o[3][1] = "x" THEN "jsonParse"
       ELSE IF Compare(o[3], R.value, R.heap) # 0 THEN "jsonParse"
       ELSE ""
Bad(R) == {i \in 1..Len(R.outs) : OutBad(R, R.outs[i]) # ""}
Clause(R) == LET b == Bad(R) IN IF b = {} THEN "" ELSE LET o == R.outs[CHOOSE i \in b : TRUE] IN OutBad(R, o) \o ":" \o o[1]
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Len(T[ci].outs)>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
