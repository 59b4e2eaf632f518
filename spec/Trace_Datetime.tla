----------------------------- MODULE Trace_Datetime -----------------------------
(* Datetimes in a time zone.  Values: <<"z">>, numbers, <<"d", day, ms, us>>, <<"s", text>>,   *)
(* <<"x">> (anything else, or an error).  zone: the offsets around the instants of the record.    *)
(*  <<"new", args (seven numbers), result, parts>>      datetimeNew and the component getters         *)
(*  <<"plus", d, n, d + n, (d + n) - d, n + d, d - (d + n)>>                                             *)
(*  <<"iso", zone, d, text, text read back, date text, date read back, parts>>                             *)
(*  <<"parse", zone, text, result, parts>>                                                                    *)
(*  <<"aware", zone, instant, parts, text, text read back, text of it in a string>>  a host's datetime with a zone *)
(*  <<"now", zone, instant before, instant after, text of datetimeNow, date text of datetimeToday, (now - today)>>   *)
EXTENDS Zone, FiniteSets, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci
Null == <<"z">>
PartsOk(dt, p) == Len(p) = 7 /\ \A i \in 1..7 : p[i] = <<"n", Parts(dt)[i]>> \/ (Parts(dt)[i] = 0 /\ p[i] = <<"nz">>)
NewClause(R) ==
    LET a == R[2] d == DTNew(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    IN IF d = <<"open">> THEN (IF R[3] = <<"x">> THEN "new" ELSE "")
       ELSE IF d = <<"none">> THEN (IF R[3] = Null THEN "" ELSE "new-out-of-range")
       ELSE IF R[3] # d THEN "new"
       ELSE IF ~PartsOk(d, R[4]) THEN "getters"
       ELSE ""
PlusClause(R) ==
    LET s == DTPlus(R[2], R[3])
    IN IF s = <<"none">> THEN (IF <<"x">> \in {R[4], R[5], R[6]} THEN "plus" ELSE "")
       ELSE IF R[4] # s \/ R[6] # s THEN "plus"
       ELSE IF ~(IsNum(R[5]) /\ NSame(R[5], R[3])) THEN "minus"
       ELSE IF ~(IsNum(R[7]) /\ NSame(R[7], NNeg(R[3]))) THEN "minus"
       ELSE ""
Whole(o) == o % 60 = 0
IsoClause(R) ==
    LET z == R[2] d == R[3] os == OffsetsOf(z, d)
        t == IF R[4][1] = "s" THEN R[4][2] ELSE <<>>
        u == ParseInstant(t)
    IN IF ~PartsOk(d, R[8]) THEN "getters"
       ELSE IF R[6] # <<"s", DateText(d[2])>> THEN "date-text"
       ELSE IF R[7] # <<"d", d[2], 0, 0>> THEN "date-parse"
       ELSE IF R[4][1] # "s" THEN "text"
       \* outside of the property: times that do not exist, offsets with seconds
       ELSE IF os = {} \/ \E o \in os : ~Whole(o) THEN ""
       ELSE IF u = <<"none">> THEN "text"
       ELSE IF \A o \in os : Shift(Trunc(d), -o) # u THEN "text"
       ELSE IF R[5] # Trunc(d) THEN "parse"
       ELSE ""

\* text that is no ISO date or datetime, in whatever form of these
IsoChar(c) == IsDigit(c) \/ c \in {43, 44, 45, 46, 58, 84, 87, 90, 116, 122, 119, 32, 8722}
Shape(t) == DateShape(t) /\ (Len(t) = 10 \/ (t[11] = 84 /\ IsDigits(t, 12, 2) /\ Is(t, 14, 58) /\ IsDigits(t, 15, 2) /\ Is(t, 17, 58) /\ IsDigits(t, 18, 2)
              /\ LET fe == IF Is(t, 20, 46) THEN DigitsEnd(t, 21) ELSE 20
                 IN (Is(t, 20, 46) => (fe > 21 /\ fe < 28))
                    /\ ((Is(t, fe, 90) /\ Len(t) = fe) \/ (fe <= Len(t) /\ t[fe] \in {43, 45} /\ IsDigits(t, fe + 1, 2) /\ Is(t, fe + 3, 58) /\ IsDigits(t, fe + 4, 2) /\ Len(t) = fe + 5))))
\* 24:00:00 and :60 are times in ISO 8601
Odd(t) == Shape(t) /\ Len(t) > 10 /\ (Num(t, 12, 2) = 24 \/ Num(t, 18, 2) = 60)
NotIso(t) == \/ \E i \in 1..Len(t) : ~IsoChar(t[i])
             \/ Len(t) < 4
             \/ Cardinality({i \in 1..Len(t) : IsDigit(t[i])}) < 4
             \/ t[Len(t)] \in {45, 43, 58, 46, 44, 84}
             \/ (Shape(t) /\ ~Odd(t))       \* of this form, and wrong
ParseClause(R) ==
    LET z == R[2] t == R[3]
        dt == IF Len(t) = 10 THEN ParseDate(t) ELSE LET u == ParseInstant(t) IN IF u = <<"none">> THEN u ELSE Local(z, u)
    IN IF R[4][1] = "x" THEN "parse-error"
       ELSE IF dt = <<"none">> THEN (IF NotIso(t) /\ R[4] # Null THEN "not-null" ELSE "")
       ELSE IF ~InRange(dt) THEN (IF R[4] = Null THEN "" ELSE "parse-range")
       ELSE IF R[4] # dt THEN "parse"
       ELSE IF ~PartsOk(dt, R[5]) THEN "getters"
       ELSE ""
AwareClause(R) ==
    LET z == R[2] u == R[3] d == Local(z, u)
        t == IF R[5][1] = "s" THEN R[5][2] ELSE <<>>
        os == OffsetsOf(z, d)
    IN IF ~InRange(d) THEN (IF <<"x">> \in {R[5], R[6]} THEN "aware" ELSE "")
       ELSE IF ~PartsOk(d, R[4]) THEN "aware-getters"
       ELSE IF \E o \in os : ~Whole(o) THEN ""
       ELSE IF \A o \in os : Shift(Trunc(d), -o) # ParseInstant(t) THEN "aware-text"
       ELSE IF R[6] # Trunc(d) THEN "aware-parse"
       ELSE IF R[7] # <<"s", t>> THEN "aware-string"
       ELSE ""
DLe(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])
NowClause(R) ==
    LET z == R[2] u == IF R[5][1] = "s" THEN ParseInstant(R[5][2]) ELSE <<"none">>
    IN IF u = <<"none">> THEN "now-text"
       ELSE IF ~(DLe(Trunc(R[3]), u) /\ DLe(u, R[4])) THEN "now"
       ELSE IF R[6] \notin {<<"s", DateText(Local(z, R[3])[2])>>, <<"s", DateText(Local(z, R[4])[2])>>} THEN "today"
       ELSE ""
Clause(R) == CASE R[1] = "new" -> NewClause(R) [] R[1] = "plus" -> PlusClause(R) [] R[1] = "iso" -> IsoClause(R)
               [] R[1] = "parse" -> ParseClause(R) [] R[1] = "aware" -> AwareClause(R) [] OTHER -> NowClause(R)
Extra(R) == IF R[1] = "iso" THEN (IF OffsetsOf(R[2], R[3]) = {} THEN "gap" ELSE IF Cardinality(OffsetsOf(R[2], R[3])) = 2 THEN "fold" ELSE "iso") ELSE R[1]
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Extra(T[ci])>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
