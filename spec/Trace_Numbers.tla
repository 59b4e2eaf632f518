----------------------------- MODULE Trace_Numbers -----------------------------
(* Numbers and texts.  Records:                                                          *)
(*  <<"num", x, texts>>, texts: <<text, what numberParseFloat gives for it, what it is as   *)
(*    a literal in source text (or null: not tried)>> for every text that x printed as;       *)
(*  <<"float", text, result>>: numberParseFloat;  <<"int", text, radix, result>>.               *)
(* A result is <<"z">>, a number, or <<"x">> (no number and not null, or an error).               *)
EXTENDS Library, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci

\* the text of an integral number: no point, and in an exponent form no zeros behind one
Plain(t) == \A i \in 1..Len(t) : t[i] = 46 =>
               \E j \in (i + 2)..Len(t) : t[j] \in {69, 101} /\ t[j - 1] # 48 /\ \A k \in (i + 1)..(j - 1) : IsDigit(t[k])
\* zero has one text
Same0(a, b) == IsNum(a) /\ NSame(a, b)
TextBad(x, e) ==
    LET v == ReadNumber(e[1])
    IN CASE v = None -> "no-number"
         [] ~NSame(v, x) -> "another-number"
         [] IsIntegral(x) /\ ~Plain(e[1]) -> "fraction"
         [] ~Same0(e[2], x) -> "numberParseFloat"
         [] (x[1] # "nz" /\ Sgn(x) = 0) /\ ~Same0(e[3], x) -> "literal"
         [] OTHER -> ""
NumClause(R) ==
    LET bad == {i \in 1..Len(R[3]) : TextBad(R[2], R[3][i]) # ""}
    IN IF R[3] = <<>> THEN "no-text" ELSE IF bad = {} THEN "" ELSE TextBad(R[2], R[3][CHOOSE i \in bad : TRUE])

\* characters that are no digits in any script (others above 127 may be)
NoDigit(c) == (c >= 128 /\ c < 256) \/ (c >= 8208 /\ c < 8304) \/ (c >= 8528 /\ c < 8592) \/ c = 8722 \/ (c >= 19968 /\ c < 40960) \/ c >= 127744
\* "null", a number, or <<"open">>; padded text may be either
FloatClause(t, r) ==
    LET p == Strip(t)
        v == IF \E i \in 1..Len(p) : p[i] > 126 \/ p[i] < 32 \/ p[i] = 95
             THEN (IF \E i \in 1..Len(p) : NoDigit(p[i]) \/ p[i] < 32 \/ p[i] = 95 \/ p[i] = 127 THEN Null ELSE Open)
             ELSE LET n == ReadNumber(p) IN IF n = None \/ n[1] = "inf" THEN Null ELSE n
    IN IF r[1] \in {"x", "inf", "nan"} THEN "no-finite-number"
       ELSE IF v = Open THEN ""
       ELSE IF v = Null THEN (IF r = Null THEN "" ELSE "not-null")
       ELSE IF r = Null THEN (IF p = t THEN "null" ELSE "")
       ELSE IF NSame(r, v) THEN "" ELSE "another-number"
IntClause(t, radix, r) ==
    LET p == Strip(t)
        s == IF p # <<>> /\ p[1] \in {43, 45} THEN 2 ELSE 1
        prefixed == Len(p) >= s + 1 /\ p[s] = 48 /\ ((p[s + 1] \in {66, 98} /\ radix = 2) \/ (p[s + 1] \in {79, 111} /\ radix = 8) \/ (p[s + 1] \in {88, 120} /\ radix = 16))
        Digs(i) == [k \in 1..(Len(p) - i + 1) |-> DigVal(p[i + k - 1])]
        ds == Digs(IF prefixed THEN s + 2 ELSE s)
        isNum == ds # <<>> /\ \A k \in 1..Len(ds) : ds[k] < radix
        sign == IF p # <<>> /\ p[1] = 45 THEN 1 ELSE 0
        exact == Canon(sign, BOfDigits(ds, radix), 0)
        near == Round(sign, BOfDigits(ds, radix), 0, FALSE)
    IN IF r[1] \in {"x", "inf", "nan"} THEN "no-finite-number"
       ELSE IF \E i \in 1..Len(p) : p[i] > 126
            THEN (IF \E i \in 1..Len(p) : NoDigit(p[i]) THEN (IF r = Null THEN "" ELSE "not-null") ELSE "")
       ELSE IF ~isNum THEN (IF r = Null THEN "" ELSE "not-null")
       \* more than a double holds
       ELSE IF Len(ds) > 300 THEN ""
       ELSE IF r = Null THEN (IF p = t /\ ~prefixed THEN "null" ELSE "")
       ELSE IF NSame(r, exact) \/ NSame(r, near) THEN "" ELSE "another-number"
Clause(R) == CASE R[1] = "num" -> NumClause(R) [] R[1] = "float" -> FloatClause(R[2], R[3]) [] OTHER -> IntClause(R[2], R[3], R[4])
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), T[ci][1]>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
