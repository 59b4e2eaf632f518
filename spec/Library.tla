-------------------------------- MODULE Library --------------------------------
(* The library functions that depend on their arguments and the heap only.       *)
(* LibCall(name, args, heap) is                                                  *)
(*   [k |-> "ok", v |-> value, h |-> heap']   the call's result                   *)
(*   [k |-> "fail", v |-> value, h |-> heap]  a failing call: the documented      *)
(*        failure value; reported in debug mode; every argument unchanged         *)
(*   [k |-> "open"]                           left open                           *)
EXTENDS Values, TLC

\* ---- argument models ------------------------------------------------------------
Arg(t) == [t |-> t, d |-> NoVal, nul |-> FALSE, int |-> FALSE, ge |-> NoVal, gt |-> NoVal, le |-> NoVal, last |-> FALSE]
Opt(a, v) == [a EXCEPT !.d = v]
Nul(a) == [a EXCEPT !.nul = TRUE]
IntA == [Arg("number") EXCEPT !.int = TRUE]
IndexA == [IntA EXCEPT !.ge = NZero]
AnyA == Arg("any")
LastA == [Arg("any") EXCEPT !.last = TRUE]
ArrA == Arg("array")
ObjA == Arg("object")
StrA == Arg("string")
NumA == Arg("number")
FunA == Arg("function")
DatA == Arg("datetime")
RegA == Arg("regex")
BoolA == Arg("boolean")

\* [a |-> argument models, f |-> failure value]
Sig(a) == [a |-> a, f |-> Null]
SigF(a, f) == [a |-> a, f |-> f]
Minus1 == <<"n", -1>>

Sigs ==
  [ arrayCopy |-> Sig(<<ArrA>>), arrayDelete |-> Sig(<<ArrA, IndexA>>), arrayExtend |-> Sig(<<ArrA, ArrA>>),
    arrayGet |-> Sig(<<ArrA, IndexA>>), arrayIndexOf |-> SigF(<<ArrA, AnyA, Opt(IndexA, NZero)>>, Minus1),
    arrayJoin |-> Sig(<<ArrA, StrA>>), arrayLastIndexOf |-> SigF(<<ArrA, AnyA, Nul(IndexA)>>, Minus1),
    arrayLength |-> SigF(<<ArrA>>, NZero), arrayNew |-> Sig(<<LastA>>),
    arrayNewSize |-> Sig(<<Opt(IndexA, NZero), Opt(AnyA, NZero)>>), arrayPop |-> Sig(<<ArrA>>),
    arrayPush |-> Sig(<<ArrA, LastA>>), arraySet |-> Sig(<<ArrA, IndexA, AnyA>>), arrayShift |-> Sig(<<ArrA>>),
    arraySlice |-> Sig(<<ArrA, Opt(IndexA, NZero), Nul(IndexA)>>), arraySort |-> Sig(<<ArrA, Nul(FunA)>>),
    dataAggregate |-> Sig(<<ArrA, ObjA>>), dataCalculatedField |-> Sig(<<ArrA, StrA, StrA, Nul(ObjA)>>),
    dataFilter |-> Sig(<<ArrA, StrA, Nul(ObjA)>>), dataJoin |-> Sig(<<ArrA, ArrA, StrA, Nul(StrA), BoolA, Nul(ObjA)>>),
    dataParseCSV |-> Sig(<<LastA>>), dataSort |-> Sig(<<ArrA, ArrA>>),
    dataTop |-> Sig(<<ArrA, [IntA EXCEPT !.ge = <<"n", 1>>], Nul(ArrA)>>), dataValidate |-> Sig(<<ArrA, BoolA>>),
    datetimeDay |-> Sig(<<DatA>>), datetimeHour |-> Sig(<<DatA>>), datetimeISOFormat |-> Sig(<<DatA, BoolA>>),
    datetimeISOParse |-> Sig(<<StrA>>), datetimeMillisecond |-> Sig(<<DatA>>), datetimeMinute |-> Sig(<<DatA>>),
    datetimeMonth |-> Sig(<<DatA>>),
    datetimeNew |-> Sig(<<[IntA EXCEPT !.ge = <<"n", 100>>], IntA, [IntA EXCEPT !.ge = <<"n", -10000>>, !.le = <<"n", 10000>>],
                         Opt(IntA, NZero), Opt(IntA, NZero), Opt(IntA, NZero), Opt(IntA, NZero)>>),
    datetimeNow |-> Sig(<<LastA>>), datetimeSecond |-> Sig(<<DatA>>), datetimeToday |-> Sig(<<LastA>>), datetimeYear |-> Sig(<<DatA>>),
    jsonParse |-> Sig(<<StrA>>), jsonStringify |-> Sig(<<AnyA, Nul([IntA EXCEPT !.ge = <<"n", 1>>])>>),
    mathAbs |-> Sig(<<NumA>>), mathAcos |-> Sig(<<NumA>>), mathAsin |-> Sig(<<NumA>>), mathAtan |-> Sig(<<NumA>>),
    mathAtan2 |-> Sig(<<NumA, NumA>>), mathCeil |-> Sig(<<NumA>>), mathCos |-> Sig(<<NumA>>), mathFloor |-> Sig(<<NumA>>),
    mathLn |-> Sig(<<[NumA EXCEPT !.gt = NZero]>>),
    mathLog |-> Sig(<<[NumA EXCEPT !.gt = NZero], Opt([NumA EXCEPT !.gt = NZero], <<"n", 10>>)>>),
    mathMax |-> Sig(<<LastA>>), mathMin |-> Sig(<<LastA>>), mathPi |-> Sig(<<LastA>>), mathRandom |-> Sig(<<LastA>>),
    mathRound |-> Sig(<<NumA, Opt(IndexA, NZero)>>), mathSign |-> Sig(<<NumA>>), mathSin |-> Sig(<<NumA>>),
    mathSqrt |-> Sig(<<[NumA EXCEPT !.ge = NZero]>>), mathTan |-> Sig(<<NumA>>),
    numberParseInt |-> Sig(<<StrA, Opt([IntA EXCEPT !.ge = <<"n", 2>>, !.le = <<"n", 36>>], <<"n", 10>>)>>),
    numberParseFloat |-> Sig(<<StrA>>), numberToFixed |-> Sig(<<NumA, Opt(IndexA, <<"n", 2>>), BoolA>>),
    objectAssign |-> Sig(<<ObjA, ObjA>>), objectCopy |-> Sig(<<ObjA>>), objectDelete |-> Sig(<<ObjA, StrA>>),
    objectGet |-> Sig(<<ObjA, StrA, AnyA>>), objectHas |-> SigF(<<ObjA, StrA>>, Bool(FALSE)), objectKeys |-> Sig(<<ObjA>>),
    objectNew |-> Sig(<<LastA>>), objectSet |-> Sig(<<ObjA, StrA, AnyA>>),
    regexEscape |-> Sig(<<StrA>>), regexMatch |-> Sig(<<RegA, StrA>>), regexMatchAll |-> Sig(<<RegA, StrA>>),
    regexNew |-> Sig(<<StrA, Nul(StrA)>>), regexReplace |-> Sig(<<RegA, StrA, StrA>>), regexSplit |-> Sig(<<RegA, StrA>>),
    schemaParse |-> Sig(<<LastA>>), schemaParseEx |-> Sig(<<AnyA, Nul(ObjA), Opt(StrA, Str(<<>>))>>),
    schemaTypeModel |-> Sig(<<LastA>>), schemaValidate |-> Sig(<<ObjA, StrA, AnyA>>), schemaValidateTypeModel |-> Sig(<<ObjA>>),
    stringCharCodeAt |-> Sig(<<StrA, IndexA>>), stringEndsWith |-> Sig(<<StrA, StrA>>), stringFromCharCode |-> Sig(<<LastA>>),
    stringIndexOf |-> SigF(<<StrA, StrA, Opt(IndexA, NZero)>>, Minus1), stringLastIndexOf |-> SigF(<<StrA, StrA, Nul(IndexA)>>, Minus1),
    stringLength |-> SigF(<<StrA>>, NZero), stringLower |-> Sig(<<StrA>>), stringNew |-> Sig(<<AnyA>>),
    stringRepeat |-> Sig(<<StrA, IndexA>>), stringReplace |-> Sig(<<StrA, StrA, StrA>>),
    stringSlice |-> Sig(<<StrA, IndexA, Nul(IndexA)>>), stringSplit |-> Sig(<<StrA, StrA>>), stringStartsWith |-> Sig(<<StrA, StrA>>),
    stringTrim |-> Sig(<<StrA>>), stringUpper |-> Sig(<<StrA>>),
    systemBoolean |-> Sig(<<AnyA>>), systemCompare |-> Sig(<<AnyA, AnyA>>), systemFetch |-> Sig(<<AnyA>>),
    systemGlobalGet |-> Sig(<<StrA, AnyA>>), systemGlobalSet |-> Sig(<<StrA, AnyA>>), systemIs |-> Sig(<<AnyA, AnyA>>),
    systemLog |-> Sig(<<AnyA>>), systemLogDebug |-> Sig(<<AnyA>>), systemPartial |-> Sig(<<FunA, LastA>>), systemType |-> Sig(<<AnyA>>),
    urlEncode |-> Sig(<<StrA>>), urlEncodeComponent |-> Sig(<<StrA>>) ]
LibNames == DOMAIN Sigs

\* the spreadsheet-style names of the expression mode
ExprNames ==
  [ abs |-> "mathAbs", acos |-> "mathAcos", asin |-> "mathAsin", atan |-> "mathAtan", atan2 |-> "mathAtan2", ceil |-> "mathCeil",
    charCodeAt |-> "stringCharCodeAt", cos |-> "mathCos", date |-> "datetimeNew", day |-> "datetimeDay", endsWith |-> "stringEndsWith",
    indexOf |-> "stringIndexOf", fixed |-> "numberToFixed", floor |-> "mathFloor", fromCharCode |-> "stringFromCharCode",
    hour |-> "datetimeHour", lastIndexOf |-> "stringLastIndexOf", len |-> "stringLength", lower |-> "stringLower", ln |-> "mathLn",
    log |-> "mathLog", max |-> "mathMax", min |-> "mathMin", millisecond |-> "datetimeMillisecond", minute |-> "datetimeMinute",
    month |-> "datetimeMonth", now |-> "datetimeNow", parseInt |-> "numberParseInt", parseFloat |-> "numberParseFloat", pi |-> "mathPi",
    rand |-> "mathRandom", replace |-> "stringReplace", rept |-> "stringRepeat", round |-> "mathRound", second |-> "datetimeSecond",
    sign |-> "mathSign", sin |-> "mathSin", slice |-> "stringSlice", sqrt |-> "mathSqrt", startsWith |-> "stringStartsWith",
    text |-> "stringNew", tan |-> "mathTan", today |-> "datetimeToday", trim |-> "stringTrim", upper |-> "stringUpper",
    year |-> "datetimeYear" ]

\* ---- argument validation ----------------------------------------------------------
OkType(t, v) == CASE t = "number" -> IsNum(v) [] t = "function" -> IsFun(v) [] OTHER -> TypeOf(v) = t
OkNum(s, v) ==
    /\ (s.int => IsIntegral(v))
    /\ (s.ge # NoVal => v # Nan /\ NCmp(v, s.ge) >= 0)
    /\ (s.gt # NoVal => v # Nan /\ NCmp(v, s.gt) > 0)
    /\ (s.le # NoVal => v # Nan /\ NCmp(v, s.le) <= 0)
Bad == <<<<"bad">>>>
OpenArgs == <<<<"openarg">>>>
RECURSIVE Validate(_, _, _, _)
\* the validated arguments (a last-argument array is <<"seq", values>>), Bad or OpenArgs
Validate(ss, args, i, h) ==
    IF i > Len(ss) THEN (IF Len(args) > Len(ss) THEN Bad ELSE <<>>)
    ELSE LET s == ss[i]
             rest == Validate(ss, args, i + 1, h)
             put(v) == IF rest \in {Bad, OpenArgs} THEN rest ELSE <<v>> \o rest
         IN IF s.last THEN <<<<"seq", SubSeq(args, i, Len(args))>>>>
            ELSE IF i > Len(args) THEN
                 (IF s.d # NoVal THEN put(s.d)
                  ELSE IF s.t = "boolean" THEN put(Bool(FALSE))
                  ELSE IF s.t = "any" \/ s.nul THEN put(Null)
                  ELSE Bad)
            ELSE LET v == args[i]
                 IN IF v = Open THEN OpenArgs
                    ELSE IF s.t = "any" THEN put(v)
                    ELSE IF s.t = "boolean" THEN put(Bool(Truthy(v, h)))
                    ELSE IF v = Null THEN (IF s.nul THEN put(v) ELSE Bad)
                    ELSE IF ~OkType(s.t, v) THEN Bad
                    ELSE IF s.t = "number" /\ v = AnyNum /\ (s.int \/ s.ge # NoVal \/ s.gt # NoVal \/ s.le # NoVal) THEN OpenArgs
                    ELSE IF s.t = "number" /\ ~OkNum(s, v) THEN Bad
                    ELSE put(v)

\* ---- results -------------------------------------------------------------------------
Ok(v, h) == [k |-> "ok", v |-> v, h |-> h]
Fail(v, h) == [k |-> "fail", v |-> v, h |-> h]
OpenR == [k |-> "open"]
\* a computed value: NoVal is a failing call
Val(v, h) == IF v = NoVal THEN Fail(Null, h) ELSE IF v = Open THEN OpenR ELSE Ok(v, h)
NewArr(items, h) == [k |-> "ok", v |-> <<"a", Len(h) + 1>>, h |-> Append(h, <<"a", items>>)]
NewObj(ps, h) == [k |-> "ok", v |-> <<"o", Len(h) + 1>>, h |-> Append(h, <<"o", ps>>)]
SetItems(h, v, items) == [h EXCEPT ![v[2]] = <<v[1], items>>]

\* ---- numbers ---------------------------------------------------------------------------
TenPow(d) == IF d[1] # "n" \/ d[2] > 400 THEN Inf(0) ELSE Round(0, BPow10(d[2]), 0, FALSE)
Half == <<"f", 0, <<1>>, -1>>
\* round half away from zero at the given number of decimal digits; NoVal on overflow
NRound(x, d) ==
    IF x = AnyNum THEN AnyNum
    ELSE LET m == TenPow(d)
             t == NAdd(NMul(x, m), IF x # Nan /\ NCmp(x, NZero) >= 0 THEN Half ELSE NNeg(Half))
         IN IF m[1] = "inf" \/ t[1] \in {"nan", "inf"} THEN NoVal ELSE NDiv(NTrunc(t), m)

\* fixed-point text of a finite number with d digits (exact, ties to even)
FixedText(x, d) ==
    LET e == Exp2(x)
        m == BMul(Mag(x), BPow10(d))
        q == IF e >= 0 THEN BShl(m, e)
             ELSE LET a == BShr(m, -e)
                      half == BIsOdd(BShr(m, -e - 1))
                      low == BLowBits(m, -e - 1)
                  IN IF half /\ (low \/ BIsOdd(a)) THEN BAdd(a, <<1>>) ELSE a
        ds == DText(BDigits(q))
        p == IF Len(ds) <= d THEN Pad(ds, d + 1) ELSE ds
    IN (IF Sgn(x) = 1 THEN <<45>> ELSE <<>>) \o SubSeq(p, 1, Len(p) - d)
       \o (IF d = 0 THEN <<>> ELSE <<46>> \o SubSeq(p, Len(p) - d + 1, Len(p)))
\* remove ".000" at the end
TrimFixed(t) == LET k == Find(t, <<46>>, 1)
                IN IF k # 0 /\ \A i \in (k + 1)..Len(t) : t[i] = 48 THEN SubSeq(t, 1, k - 1) ELSE t

\* correctly rounded square root of a finite number >= 0
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == \* the largest r in lo..hi with r*r <= n
    IF BCmp(lo, hi) >= 0 THEN lo
    ELSE LET mid == BShr(BAdd(BAdd(lo, hi), <<1>>), 1)
         IN IF BCmp(BMul(mid, mid), n) <= 0 THEN ISqrt(n, mid, hi) ELSE ISqrt(n, lo, BSub(mid, <<1>>))
NSqrt(x) ==
    IF IsZero(x) THEN x
    ELSE LET bl == BBitLen(Mag(x))
             sh0 == MaxI(0, 114 - bl)
             sh == IF (Exp2(x) - sh0) % 2 = 0 THEN sh0 ELSE sh0 + 1
             n == BShl(Mag(x), sh)
             hb == (BBitLen(n) + 1) \div 2
             r == ISqrt(n, BShl(<<1>>, hb - 1), BShl(<<1>>, hb))
         IN Round(0, r, (Exp2(x) - sh) \div 2, BMul(r, r) # n)

\* integer text in a radix; Open for spellings the property does not speak of
DigVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
ParseIntText(t, radix) ==
    LET s == IF t # <<>> /\ t[1] \in {43, 45} THEN 2 ELSE 1
        ds == [i \in 1..(Len(t) - s + 1) |-> DigVal(t[s + i - 1])]
    IN IF \E i \in 1..Len(t) : IsSpace(t[i]) \/ t[i] > 126 THEN Open
       ELSE IF Len(ds) = 0 \/ \E i \in 1..Len(ds) : ds[i] >= radix
            THEN (IF Len(ds) >= 2 /\ t[s] = 48 /\ t[s + 1] \in {66, 79, 88, 98, 111, 120} THEN Open ELSE Null)
       ELSE LET m == BOfDigits(ds, radix)
            IN IF BBitLen(m) > 53 THEN Open
               ELSE IF Len(ds) >= 2 /\ t[s] = 48 /\ t[s + 1] \in {66, 79, 88, 98, 111, 120} THEN Open
               ELSE Canon(IF t[1] = 45 /\ m # <<>> THEN 1 ELSE 0, m, 0)
ParseFloatText(t) ==
    IF \E i \in 1..Len(t) : IsSpace(t[i]) \/ t[i] > 126 THEN Open
    ELSE LET v == ReadNumber(t) IN IF v = None \/ v[1] = "inf" THEN Null ELSE v

\* ---- strings --------------------------------------------------------------------------
CaseSafe(t) == \A i \in 1..Len(t) : t[i] < 128 \/ (t[i] >= 19968 /\ t[i] < 40960) \/ t[i] >= 127744
MapText(t, Op(_)) == [i \in 1..Len(t) |-> Op(t[i])]

\* ---- searching --------------------------------------------------------------------------
\* first index in i..n (0-based) whose element equals v: -1 none, -2 no result, -3 open
RECURSIVE IndexFrom(_, _, _, _)
IndexFrom(items, v, i, h) ==
    IF i >= Len(items) THEN -1
    ELSE LET c == Compare(items[i + 1], v, h) IN IF c = 0 THEN i ELSE IF c = 2 THEN -2 ELSE IF c = 3 THEN -3 ELSE IndexFrom(items, v, i + 1, h)
RECURSIVE LastIndexFrom(_, _, _, _)
LastIndexFrom(items, v, i, h) ==
    IF i < 0 THEN -1
    ELSE LET c == Compare(items[i + 1], v, h) IN IF c = 0 THEN i ELSE IF c = 2 THEN -2 ELSE IF c = 3 THEN -3 ELSE LastIndexFrom(items, v, i - 1, h)
IxResult(k, h) == IF k = -2 THEN Fail(Null, h) ELSE IF k = -3 THEN OpenR ELSE Ok(<<"n", k>>, h)

\* the greatest (sign 1) / least (sign -1) of the values, the first of equals; 3 in the comparison leaves it open
RECURSIVE Extreme(_, _, _, _, _)
Extreme(vs, best, i, sign, h) ==
    IF i > Len(vs) THEN best
    ELSE LET c == Compare(vs[i], best, h)
         IN IF c = 3 THEN Open ELSE IF c = 2 THEN NoVal ELSE Extreme(vs, IF c = sign THEN vs[i] ELSE best, i + 1, sign, h)

AllOrdered(items, h) == \A i, j \in 1..Len(items) : i < j => Compare(items[i], items[j], h) \in {-1, 0, 1}

RECURSIVE NewObjPairs(_, _, _)
NewObjPairs(args, i, ps) ==
    IF i > Len(args) THEN ps
    ELSE NewObjPairs(args, i + 2, PairSet(ps, args[i][2], IF i + 1 <= Len(args) THEN args[i + 1] ELSE Null))

HasUk(args) == \E i \in 1..Len(args) : args[i] = Open

Unmodelled == { "dataAggregate", "dataCalculatedField", "dataFilter", "dataJoin", "dataParseCSV", "dataSort", "dataTop", "dataValidate",
    "datetimeNow", "datetimeToday", "jsonParse", "mathRandom",
    "regexMatch", "regexMatchAll", "regexNew", "regexReplace", "regexSplit",
    "schemaParse", "schemaParseEx", "schemaTypeModel", "schemaValidate", "schemaValidateTypeModel",
    "urlEncode", "urlEncodeComponent", "regexEscape" }

Trans == {"mathAtan", "mathAtan2", "mathCos", "mathSin", "mathTan", "mathLn", "mathLog", "mathAcos", "mathAsin"}

LibBody(f, V, h) ==
    LET A1 == V[1] A2 == V[2] A3 == V[3]
        len(v) == Len(Items(h, v))
        num(k) == Ok(<<"n", k>>, h)
        tx(t) == Val(TextVal(t), h)
    IN
    CASE f = "arrayCopy" -> NewArr(Items(h, A1), h)
      [] f = "arrayDelete" -> IF NInt(A2) >= len(A1) THEN Fail(Null, h)
                              ELSE Ok(Null, SetItems(h, A1, RemoveAt(Items(h, A1), NInt(A2) + 1)))
      [] f = "arrayExtend" -> Ok(A1, SetItems(h, A1, Items(h, A1) \o Items(h, A2)))
      [] f = "arrayGet" -> IF NInt(A2) >= len(A1) THEN Fail(Null, h) ELSE Ok(Items(h, A1)[NInt(A2) + 1], h)
      [] f = "arrayIndexOf" -> IF NInt(A3) >= len(A1) THEN Fail(Minus1, h) ELSE IxResult(IndexFrom(Items(h, A1), A2, NInt(A3), h), h)
      [] f = "arrayLastIndexOf" ->
            LET ix == IF A3 = Null THEN len(A1) - 1 ELSE NInt(A3)
            IN IF ix >= len(A1) THEN Fail(Minus1, h) ELSE IxResult(LastIndexFrom(Items(h, A1), A2, ix, h), h)
      [] f = "arrayJoin" -> tx(JoinWith([i \in 1..len(A1) |-> VText(Items(h, A1)[i], h)], A2[2]))
      [] f = "arrayLength" -> num(len(A1))
      [] f = "arrayNew" -> NewArr(A1[2], h)
      [] f = "arrayNewSize" -> IF NInt(A1) > 5000 THEN OpenR ELSE NewArr([i \in 1..NInt(A1) |-> A2], h)
      [] f = "arrayPop" -> IF len(A1) = 0 THEN Fail(Null, h)
                           ELSE Ok(Items(h, A1)[len(A1)], SetItems(h, A1, SubSeq(Items(h, A1), 1, len(A1) - 1)))
      [] f = "arrayPush" -> Ok(A1, SetItems(h, A1, Items(h, A1) \o A2[2]))
      [] f = "arraySet" -> IF NInt(A2) >= len(A1) THEN Fail(Null, h)
                           ELSE Ok(A3, SetItems(h, A1, [Items(h, A1) EXCEPT ![NInt(A2) + 1] = A3]))
      [] f = "arrayShift" -> IF len(A1) = 0 THEN Fail(Null, h) ELSE Ok(Items(h, A1)[1], SetItems(h, A1, Tail(Items(h, A1))))
      [] f = "arraySlice" ->
            LET e == IF A3 = Null THEN len(A1) ELSE NInt(A3)
            IN IF NInt(A2) > len(A1) \/ e > len(A1) THEN Fail(Null, h) ELSE NewArr(SubSeq(Items(h, A1), NInt(A2) + 1, e), h)
      [] f = "arraySort" ->
            IF ~AllOrdered(Items(h, A1), h) THEN OpenR
            ELSE LET lt(x, y) == Compare(x, y, h) < 0 IN Ok(A1, SetItems(h, A1, StableSort(Items(h, A1), lt)))
      [] f = "datetimeDay" -> num(Civil(A1[2])[3])
      [] f = "datetimeMonth" -> num(Civil(A1[2])[2])
      [] f = "datetimeYear" -> num(Civil(A1[2])[1])
      [] f = "datetimeHour" -> num(A1[3] \div 3600000)
      [] f = "datetimeMinute" -> num((A1[3] \div 60000) % 60)
      [] f = "datetimeSecond" -> num((A1[3] \div 1000) % 60)
      [] f = "datetimeMillisecond" -> num(A1[3] % 1000)
      [] f = "datetimeNew" -> Val(DTNew(A1, A2, A3, V[4], V[5], V[6], V[7]), h)
      [] f = "datetimeISOFormat" -> IF A2[2] THEN tx(DateText(A1[2])) ELSE tx(DTText(A1))
      [] f = "datetimeISOParse" ->
            LET d == ParseDate(A1[2]) i == ParseInstant(A1[2])
            IN IF d # NoVal THEN Ok(d, h) ELSE IF i # NoVal /\ i[2] >= 1 /\ i[2] <= MaxDay THEN Ok(i, h) ELSE Ok(Null, h)
      [] f = "jsonStringify" -> IF A2 = Null THEN tx(JSONText(A1, h)) ELSE IF A2[1] # "n" \/ (A2[1] = "n" /\ A2[2] > 40) THEN OpenR ELSE tx(JText(A1, h, {}, NInt(A2)))
      [] f = "mathAbs" -> Ok(NAbs(A1), h)
      [] f = "mathCeil" -> IF A1[1] \in {"nan", "inf"} THEN Fail(Null, h) ELSE IF A1 = AnyNum THEN OpenR ELSE Ok(NCeil(A1), h)
      [] f = "mathFloor" -> IF A1[1] \in {"nan", "inf"} THEN Fail(Null, h) ELSE IF A1 = AnyNum THEN OpenR ELSE Ok(NFloor(A1), h)
      [] f = "mathSign" -> IF A1[1] \in {"nan", "any"} THEN OpenR ELSE num(NCmp(A1, NZero))
      [] f = "mathMax" -> IF A1[2] = <<>> THEN Ok(Null, h) ELSE Val(Extreme(A1[2], A1[2][1], 2, 1, h), h)
      [] f = "mathMin" -> IF A1[2] = <<>> THEN Ok(Null, h) ELSE Val(Extreme(A1[2], A1[2][1], 2, -1, h), h)
      [] f = "mathPi" -> Ok(<<"f", 0, <<1443, 5188, 4058, 1608>>, -48>>, h)
      [] f = "mathRound" -> Val(NRound(A1, A2), h)
      [] f = "mathSqrt" -> IF A1[1] \in {"inf", "nan"} THEN OpenR ELSE IF A1 = AnyNum THEN OpenR ELSE Ok(NSqrt(A1), h)
      [] f \in Trans ->
            IF \E i \in 1..Len(V) : V[i][1] \in {"any", "nan", "inf"} THEN OpenR
            ELSE IF f \in {"mathAcos", "mathAsin"} /\ NCmp(NAbs(A1), <<"n", 1>>) > 0 THEN Fail(Null, h)
            ELSE IF f = "mathLog" /\ A2 = <<"n", 1>> THEN Fail(Null, h)
            ELSE Ok(AnyNum, h)
      [] f = "numberParseInt" -> Val(ParseIntText(A1[2], NInt(A2)), h)
      [] f = "numberParseFloat" -> Val(ParseFloatText(A1[2]), h)
      [] f = "numberToFixed" ->
            LET r == NRound(A1, A2)
            IN IF r = NoVal THEN Fail(Null, h) ELSE IF r = AnyNum THEN OpenR
               ELSE LET t == FixedText(r, NInt(A2)) IN Ok(Str(IF A3[2] THEN TrimFixed(t) ELSE t), h)
      [] f = "objectAssign" ->
            Ok(A1, SetItems(h, A1, FoldLeft(LAMBDA acc, p : PairSet(acc, p[1], p[2]), Items(h, A1), Items(h, A2))))
      [] f = "objectCopy" -> NewObj(Items(h, A1), h)
      [] f = "objectDelete" -> Ok(Null, SetItems(h, A1, PairDel(Items(h, A1), A2[2])))
      [] f = "objectGet" -> Ok(PairGet(Items(h, A1), A2[2], A3), h)
      [] f = "objectHas" -> Ok(Bool(KeyIx(Items(h, A1), A2[2], 1) # 0), h)
      [] f = "objectKeys" -> NewArr([i \in 1..len(A1) |-> Str(Items(h, A1)[i][1])], h)
      [] f = "objectNew" ->
            IF \E i \in 1..Len(A1[2]) : i % 2 = 1 /\ A1[2][i][1] # "s" THEN Fail(Null, h) ELSE NewObj(NewObjPairs(A1[2], 1, <<>>), h)
      [] f = "objectSet" -> Ok(A3, SetItems(h, A1, PairSet(Items(h, A1), A2[2], A3)))
      [] f = "stringCharCodeAt" -> IF NInt(A2) >= Len(A1[2]) THEN Fail(Null, h) ELSE num(A1[2][NInt(A2) + 1])
      [] f = "stringEndsWith" -> Ok(Bool(EndsWith(A1[2], A2[2])), h)
      [] f = "stringStartsWith" -> Ok(Bool(StartsWith(A1[2], A2[2])), h)
      [] f = "stringFromCharCode" ->
            IF \E i \in 1..Len(A1[2]) : A1[2][i] = AnyNum \/ A1[2][i] = Open THEN OpenR
            ELSE IF \E i \in 1..Len(A1[2]) : ~(IsNum(A1[2][i]) /\ IsIntegral(A1[2][i]) /\ NInt(A1[2][i]) >= 0 /\ NInt(A1[2][i]) <= 1114111) THEN Fail(Null, h)
            ELSE Ok(Str([i \in 1..Len(A1[2]) |-> NInt(A1[2][i])]), h)
      [] f = "stringIndexOf" -> IF NInt(A3) >= Len(A1[2]) THEN Fail(Minus1, h) ELSE num(Find(A1[2], A2[2], NInt(A3) + 1) - 1)
      [] f = "stringLastIndexOf" ->
            LET ix == IF A3 = Null THEN Len(A1[2]) - 1 ELSE NInt(A3)
            IN IF ix >= Len(A1[2]) THEN Fail(Minus1, h)
               ELSE IF ix < 0 THEN (IF A2[2] = <<>> THEN OpenR ELSE num(-1))
               ELSE num(FindLast(A1[2], A2[2], ix + 1) - 1)
      [] f = "stringLength" -> num(Len(A1[2]))
      [] f = "stringLower" -> IF CaseSafe(A1[2]) THEN Ok(Str(MapText(A1[2], LowerCp)), h) ELSE OpenR
      [] f = "stringUpper" -> IF CaseSafe(A1[2]) THEN Ok(Str(MapText(A1[2], UpperCp)), h) ELSE OpenR
      [] f = "stringNew" -> tx(VText(A1, h))
      [] f = "stringRepeat" -> IF NInt(A2) > 100000 \/ NInt(A2) * Len(A1[2]) > 9000 THEN OpenR ELSE Ok(Str(Repeat(A1[2], NInt(A2))), h)
      [] f = "stringReplace" -> Ok(Str(Replace(A1[2], A2[2], A3[2])), h)
      [] f = "stringSlice" ->
            LET e == IF A3 = Null THEN Len(A1[2]) ELSE NInt(A3)
            IN IF NInt(A2) > Len(A1[2]) \/ e > Len(A1[2]) THEN Fail(Null, h) ELSE Ok(Str(SubSeq(A1[2], NInt(A2) + 1, e)), h)
      [] f = "stringSplit" ->
            IF A2[2] = <<>> THEN Fail(Null, h)
            ELSE LET ps == SplitAt(A1[2], A2[2]) IN NewArr([i \in 1..Len(ps) |-> Str(ps[i])], h)
      [] f = "stringTrim" -> Ok(Str(Strip(A1[2])), h)
      [] f = "systemBoolean" -> Ok(Bool(Truthy(A1, h)), h)
      [] f = "systemCompare" -> LET c == Compare(A1, A2, h) IN IF c = 2 THEN Fail(Null, h) ELSE IF c = 3 THEN OpenR ELSE num(c)
      [] f = "systemIs" ->
            IF TypeOf(A1) # TypeOf(A2) THEN Ok(Bool(FALSE), h)
            ELSE IF IsNum(A1) THEN (IF A1[1] \in {"nan", "any"} \/ A2[1] \in {"nan", "any"} THEN OpenR ELSE Ok(Bool(NCmp(A1, A2) = 0), h))
            ELSE IF A1[1] \in {"s", "d", "re"} THEN (IF A1 = A2 THEN OpenR ELSE Ok(Bool(FALSE), h))
            ELSE Ok(Bool(A1 = A2), h)
      [] f = "systemType" -> tx(IF A1[1] = "uk" THEN <<-2>> ELSE TypeText(A1))
      [] OTHER -> OpenR

\* an argument whose value the specification leaves open opens the result
LibCall(f, args, h) ==
    LET s == Sigs[f]
        V == Validate(s.a, args, 1, h)
        fv == IF f = "objectGet" /\ Len(args) >= 3 THEN args[3] ELSE s.f
    IN IF V = Bad THEN Fail(fv, h)
       ELSE IF V = OpenArgs THEN OpenR
       ELSE IF f \in Unmodelled THEN OpenR
       ELSE LibBody(f, V, h)
=============================================================================
