---------------------------------- MODULE Data ----------------------------------
(* Tables: arrays of row objects.  The relational meaning of the data functions     *)
(* that do not evaluate expressions, join naming, and CSV reading with typing.      *)
EXTENDS Library

\* ---- helpers ---------------------------------------------------------------------
AllObjects(h, arr) == \A i \in 1..Len(Items(h, arr)) : Items(h, arr)[i][1] = "o"
Field(h, row, f) == PairGet(Items(h, row), f, Null)
\* equality of values: TRUE, FALSE; "openEq" is reported by EqOpen
Same(a, b, h) == Compare(a, b, h) = 0
CmpClosed(vs, h) == \A i, j \in 1..Len(vs) : Compare(vs[i], vs[j], h) \in {-1, 0, 1}
\* the texts of an array of strings, or <<<<-1>>>> when it is none
StrList(h, v) == LET it == Items(h, v) IN IF \A i \in 1..Len(it) : it[i][1] = "s" THEN <<TRUE, [i \in 1..Len(it) |-> it[i][2]]>> ELSE <<FALSE, <<>>>>

\* ---- sort ------------------------------------------------------------------------
SortSpecOk(h, v) ==
    LET it == Items(h, v)
    IN \A i \in 1..Len(it) : it[i][1] = "a" /\ Len(Items(h, it[i])) >= 1 /\ Items(h, it[i])[1][1] = "s"
SortKeys(h, v) == LET it == Items(h, v) IN [i \in 1..Len(it) |-> <<Items(h, it[i])[1][2], Len(Items(h, it[i])) >= 2 /\ Truthy(Items(h, it[i])[2], h)>>]
RECURSIVE RowCmp(_, _, _, _, _)
RowCmp(r, s, keys, i, h) ==
    IF i > Len(keys) THEN 0
    ELSE LET a == Field(h, r, keys[i][1]) b == Field(h, s, keys[i][1])
             c == IF keys[i][2] THEN Compare(b, a, h) ELSE Compare(a, b, h)
         IN IF c # 0 THEN c ELSE RowCmp(r, s, keys, i + 1, h)
DataSort(h, data, sorts) ==
    IF ~AllObjects(h, data) \/ ~SortSpecOk(h, sorts) THEN OpenR
    ELSE LET keys == SortKeys(h, sorts) rows == Items(h, data)
             lt(x, y) == RowCmp(x, y, keys, 1, h) = -1
         IN IF \E i, j \in 1..Len(rows) : RowCmp(rows[i], rows[j], keys, 1, h) \notin {-1, 0, 1} THEN OpenR
            ELSE Ok(data, SetItems(h, data, StableSort(rows, lt)))

\* ---- grouping: the groups of rows in order of first appearance ---------------------
KeyOf(h, row, fs) == [i \in 1..Len(fs) |-> Field(h, row, fs[i])]
SameKey(k, l, h) == \A i \in 1..Len(k) : Same(k[i], l[i], h)
Groups(h, rows, fs) == \* <<key, rows>>
    LET add(acc, row) ==
            LET k == KeyOf(h, row, fs)
                s == {i \in 1..Len(acc) : SameKey(acc[i][1], k, h)}
            IN IF s = {} THEN Append(acc, <<k, <<row>>>>) ELSE LET i == CHOOSE j \in s : TRUE IN [acc EXCEPT ![i] = <<acc[i][1], Append(acc[i][2], row)>>]
    IN FoldLeft(add, <<>>, rows)
\* functions, regexes and host values have no order among themselves that separates them: left open as keys
KeyPlain(v) == ~IsFun(v) /\ v[1] \notin {"re", "uk", "any", "near", "open", "nan"}
KeysClosed(h, rows, fs) ==
    LET vs == FoldLeft(LAMBDA acc, row : acc \o KeyOf(h, row, fs), <<>>, rows)
    IN (\A i \in 1..Len(vs) : KeyPlain(vs[i])) /\ CmpClosed(vs, h)

DataTop(h, data, count, cats) ==
    IF ~AllObjects(h, data) THEN OpenR
    ELSE IF cats # Null /\ ~StrList(h, cats)[1] THEN OpenR
    ELSE LET rows == Items(h, data)
             fs == IF cats = Null THEN <<>> ELSE StrList(h, cats)[2]
             n == NInt(count)
         IN IF ~KeysClosed(h, rows, fs) THEN OpenR
            ELSE NewArr(FoldLeft(LAMBDA acc, g : acc \o SubSeq(g[2], 1, MinI(n, Len(g[2]))), <<>>, Groups(h, rows, fs)), h)

\* ---- aggregate ---------------------------------------------------------------------
T_categories == <<99, 97, 116, 101, 103, 111, 114, 105, 101, 115>>
T_measures == <<109, 101, 97, 115, 117, 114, 101, 115>>
T_field == <<102, 105, 101, 108, 100>>
T_function == <<102, 117, 110, 99, 116, 105, 111, 110>>
T_name == <<110, 97, 109, 101>>
AggFuns == <<<<97, 118, 101, 114, 97, 103, 101>>, <<99, 111, 117, 110, 116>>, <<109, 97, 120>>, <<109, 105, 110>>, <<115, 116, 100, 100, 101, 118>>, <<115, 117, 109>>>>
AggName(t) == LET s == {i \in 1..6 : AggFuns[i] = t} IN IF s = {} THEN "" ELSE <<"average", "count", "max", "min", "stddev", "sum">>[CHOOSE i \in s : TRUE]
KeysOf(h, v) == {Items(h, v)[i][1] : i \in 1..Len(Items(h, v))}
MeasureOk(h, m) == /\ m[1] = "o" /\ KeysOf(h, m) \subseteq {T_field, T_function, T_name}
                   /\ Field(h, m, T_field)[1] = "s" /\ Field(h, m, T_function)[1] = "s" /\ AggName(Field(h, m, T_function)[2]) # ""
                   /\ (T_name \in KeysOf(h, m) => Field(h, m, T_name)[1] = "s")
AggOk(h, a) == /\ KeysOf(h, a) \subseteq {T_categories, T_measures}
               /\ Field(h, a, T_measures)[1] = "a" /\ Items(h, Field(h, a, T_measures)) # <<>>
               /\ \A i \in 1..Len(Items(h, Field(h, a, T_measures))) : MeasureOk(h, Items(h, Field(h, a, T_measures))[i])
               /\ (T_categories \in KeysOf(h, a) => /\ Field(h, a, T_categories)[1] = "a" /\ Items(h, Field(h, a, T_categories)) # <<>>
                                                   /\ StrList(h, Field(h, a, T_categories))[1])
\* model objects with null members, unknown members or other types are left open
SumOf(vs) == FoldLeft(LAMBDA acc, v : NAdd(acc, v), NZero, vs)
\* exact rational statistics of finite numbers: all values as integers over 2^e
MinExp(vs) == FoldLeft(LAMBDA acc, v : MinI(acc, Exp2(v)), 0, vs)
SInt(v, e) == <<Sgn(v), BShl(Mag(v), Exp2(v) - e)>>
SAdd(a, b) == IF a[1] = b[1] THEN <<a[1], BAdd(a[2], b[2])>> ELSE IF BCmp(a[2], b[2]) >= 0 THEN <<a[1], BSub(a[2], b[2])>> ELSE <<b[1], BSub(b[2], a[2])>>
ExactSum(vs, e) == FoldLeft(LAMBDA acc, v : SAdd(acc, SInt(v, e)), <<0, <<>>>>, vs)
Mean(vs) == LET e == MinExp(vs) s == ExactSum(vs, e) IN IF s[2] = <<>> THEN NZero ELSE DivRound(s[1], s[2], e, OfInt(Len(vs)))
\* the population standard deviation: sqrt(n * sum v^2 - (sum v)^2) / n
StdDev(vs) ==
    LET e == MinExp(vs)
        s == ExactSum(vs, e)
        sq == FoldLeft(LAMBDA acc, v : LET x == SInt(v, e)[2] IN BAdd(acc, BMul(x, x)), <<>>, vs)
        d == BSub(BMulInt(sq, Len(vs)), BMul(s[2], s[2]))
        n2 == OfInt(Len(vs) * Len(vs))
        q == BDivMod(BShl(d, 240), n2)[1]          \* variance * 2^(240 - 2e)
        hb == (BBitLen(q) + 1) \div 2
        r == ISqrt(q, BShl(<<1>>, hb - 1), BShl(<<1>>, hb))
    IN IF d = <<>> THEN NZero ELSE Round(0, r, e - 120, TRUE)
\* a computed statistic is compared up to a relative error of 2^-36
Near(v) == IF v[1] \in {"n", "f"} /\ ~IsZero(v) THEN <<"near", v>> ELSE IF v[1] = "nz" THEN NZero ELSE v
AggValue(f, vs, h) ==
    IF vs = <<>> THEN Null
    ELSE IF f = "count" THEN <<"n", Len(vs)>>
    ELSE IF \A i \in 1..Len(vs) : IsNum(vs[i]) /\ IsFinite(vs[i]) THEN
         (CASE f = "max" -> Extreme(vs, vs[1], 2, 1, h)
            [] f = "min" -> Extreme(vs, vs[1], 2, -1, h)
            [] f = "average" -> Near(Mean(vs))
            [] OTHER -> Near(StdDev(vs)))
    ELSE IF f \in {"max", "min"} /\ (\A i \in 1..Len(vs) : vs[i][1] = "s" \/ \A j \in 1..Len(vs) : vs[j][1] = "d") THEN Extreme(vs, vs[1], 2, IF f = "max" THEN 1 ELSE -1, h)
    ELSE Open
ExactTotal(vs) == LET e == MinExp(vs) s == ExactSum(vs, e) IN Round(s[1], s[2], e, FALSE)
AggVal(f, vs, h) == IF f = "sum" /\ vs # <<>> /\ (\A i \in 1..Len(vs) : IsNum(vs[i]) /\ IsFinite(vs[i])) THEN Near(ExactTotal(vs)) ELSE AggValue(f, vs, h)
DataAggregate(h, data, agg) ==
    IF ~AggOk(h, agg) \/ ~AllObjects(h, data) THEN OpenR
    ELSE LET hasC == T_categories \in KeysOf(h, agg)
             fs == IF hasC THEN StrList(h, Field(h, agg, T_categories))[2] ELSE <<>>
             ms == Items(h, Field(h, agg, T_measures))
             outName(m) == IF T_name \in KeysOf(h, m) THEN Field(h, m, T_name)[2] ELSE Field(h, m, T_field)[2]
             names == [i \in 1..Len(ms) |-> outName(ms[i])]
             rows == Items(h, data)
             clash == (\E i, j \in 1..Len(names) : i # j /\ names[i] = names[j]) \/ (\E i \in 1..Len(names), j \in 1..Len(fs) : names[i] = fs[j])
                      \/ (\E i, j \in 1..Len(fs) : i # j /\ fs[i] = fs[j])
             gs == Groups(h, rows, fs)
             vals(m, g) == SelectSeq([k \in 1..Len(g[2]) |-> Field(h, g[2][k], Field(h, m, T_field)[2])], LAMBDA v : v # Null)
             res(m, g) == AggVal(AggName(Field(h, m, T_function)[2]), vals(m, g), h)
             row(g) == [i \in 1..Len(fs) |-> <<fs[i], g[1][i]>>] \o [i \in 1..Len(ms) |-> <<names[i], res(ms[i], g)>>]
             cells == [i \in 1..Len(gs) |-> <<"o", row(gs[i])>>]
         IN IF clash \/ ~KeysClosed(h, rows, fs) THEN OpenR
            ELSE IF \E g \in 1..Len(gs), m \in 1..Len(ms) : res(ms[m], gs[g]) = Open THEN OpenR
            ELSE NewArr([i \in 1..Len(gs) |-> <<"o", Len(h) + i>>], h \o cells)

\* ---- join ---------------------------------------------------------------------------
FieldNames(h, rows) == \* in order of first appearance
    LET add(acc, p) == IF \E i \in 1..Len(acc) : acc[i] = p[1] THEN acc ELSE Append(acc, p[1])
    IN FoldLeft(LAMBDA acc, row : FoldLeft(add, acc, Items(h, row)), <<>>, rows)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Unique(_, _, _)
Unique(f, k, taken) == LET n == f \o NatText(k) IN IF InSeq(n, taken) THEN Unique(f, k + 1, taken) ELSE n
\* <<raw name, joined name>> of the right fields
RightNames(h, left, right) ==
    LET ln == FieldNames(h, left) rn == FieldNames(h, right)
        add(acc, f) == Append(acc, <<f, IF ~InSeq(f, ln) THEN f ELSE Unique(f, 2, ln \o rn \o [i \in 1..Len(acc) |-> acc[i][2]])>>)
    IN FoldLeft(add, <<>>, rn)
\* lks, rks: the key values of the left and right rows (evaluated)
JoinRows(h, left, right, lks, rks, isLeft) ==
    LET rn == RightNames(h, left, right)
        rename(p) == <<(CHOOSE x \in {rn[i] : i \in 1..Len(rn)} : x[1] = p[1])[2], p[2]>>
        pairs(l, r) == FoldLeft(LAMBDA acc, p : PairSet(acc, rename(p)[1], p[2]), Items(h, l), Items(h, r))
        matches(i) == SelectSeq(Idx(Len(right)), LAMBDA j : Same(lks[i], rks[j], h))
        rowsOf(i) == IF matches(i) # <<>> THEN [k \in 1..Len(matches(i)) |-> pairs(left[i], right[matches(i)[k]])]
                     ELSE IF isLeft THEN <<>> ELSE <<Items(h, left[i])>>
        all == FoldLeft(LAMBDA acc, i : acc \o rowsOf(i), <<>>, Idx(Len(left)))
    IN IF ~(\A i \in 1..Len(lks) : KeyPlain(lks[i])) \/ ~(\A i \in 1..Len(rks) : KeyPlain(rks[i])) \/ ~CmpClosed(lks \o rks, h) THEN OpenR
       ELSE NewArr([i \in 1..Len(all) |-> <<"o", Len(h) + i>>], h \o [i \in 1..Len(all) |-> <<"o", all[i]>>])

\* ---- CSV ----------------------------------------------------------------------------
(* records of a text: sequences of cells.  st: "start" of a cell, "in" a plain cell,   *)
(* "quo" in quotes, "end" after the closing quote                                       *)
RECURSIVE Cells(_, _, _, _, _, _)
Cells(t, i, st, cell, rec, recs) ==
    LET eol(c) == c \in {10, 13}
        nx == IF t[i] = 13 /\ i + 1 <= Len(t) /\ t[i + 1] = 10 THEN i + 2 ELSE i + 1
    IN IF i > Len(t) THEN (IF st = "quo" THEN <<"open">>
                           ELSE IF st = "start" /\ rec = <<>> THEN <<"ok", recs>>
                           ELSE <<"ok", Append(recs, Append(rec, cell))>>)
       ELSE IF st = "quo" THEN
            (IF t[i] # 34 THEN Cells(t, i + 1, "quo", Append(cell, t[i]), rec, recs)
             ELSE IF i + 1 <= Len(t) /\ t[i + 1] = 34 THEN Cells(t, i + 2, "quo", Append(cell, 34), rec, recs)
             ELSE Cells(t, i + 1, "end", cell, rec, recs))
       ELSE IF eol(t[i]) THEN
            (IF st = "start" /\ rec = <<>> THEN Cells(t, nx, "start", <<>>, <<>>, recs)       \* a blank line is no record
             ELSE Cells(t, nx, "start", <<>>, <<>>, Append(recs, Append(rec, cell))))
       ELSE IF t[i] = 44 THEN Cells(t, i + 1, "start", <<>>, Append(rec, cell), recs)
       ELSE IF st = "start" /\ t[i] = 32 THEN (Cells(t, i + 1, "sp", cell, rec, recs))
       ELSE IF st = "sp" /\ t[i] = 32 THEN Cells(t, i + 1, "sp", cell, rec, recs)
       ELSE IF st \in {"start", "sp"} /\ t[i] = 34 THEN Cells(t, i + 1, "quo", cell, rec, recs)
       ELSE IF st = "end" THEN <<"open">>                                                       \* text after a closing quote
       ELSE Cells(t, i + 1, "in", Append(cell, t[i]), rec, recs)

\* the type of a cell text: "" (not determined), or datetime, boolean, number, string; "open" for spellings left open
DateOrInstant(t) == LET d == ParseDate(t) i == ParseInstant(t) IN IF d # NoVal THEN d ELSE IF i # NoVal /\ i[2] >= 1 /\ i[2] <= MaxDay THEN i ELSE NoVal
CellType(t) ==
    IF t = <<>> \/ t = NullT THEN ""
    ELSE IF DateOrInstant(t) # NoVal THEN "datetime"
    ELSE IF t \in {TrueT, FalseT} THEN "boolean"
    ELSE LET v == ParseFloatText(t)
             inner == Strip(t)
         IN IF v = Open THEN (IF (\E i \in 1..Len(t) : t[i] > 126 /\ (\E j \in 1..Len(t) : IsDigit(t[j]))) \/ ReadNumber(inner) # None THEN "open" ELSE "string") ELSE IF v = Null THEN "string" ELSE "number"
\* the typed value of a cell in a column: NoVal is an error
CellValue(t, type) ==
    IF t = NullT THEN Null
    ELSE IF type = "string" THEN Str(t)
    ELSE IF t = <<>> THEN Null
    ELSE CASE type = "number" -> (LET v == ParseFloatText(t) IN IF v = Null THEN NoVal ELSE v)
           [] type = "datetime" -> DateOrInstant(t)
           [] OTHER -> (IF t = TrueT THEN Bool(TRUE) ELSE IF t = FalseT THEN Bool(FALSE) ELSE NoVal)
ParseCSV(h, recs) ==
    IF recs = <<>> THEN NewArr(<<>>, h)
    ELSE LET hd == recs[1] body == Tail(recs)
             nc == Len(hd) nr == Len(body)
             cell(r, c) == body[r][c]
             has(r, c) == c <= Len(body[r])
             typesOf(c) == SelectSeq([r \in 1..nr |-> IF has(r, c) THEN CellType(cell(r, c)) ELSE ""], LAMBDA x : x # "")
             type(c) == IF typesOf(c) = <<>> THEN "string" ELSE typesOf(c)[1]
             types == [c \in 1..nc |-> type(c)]
             val(r, c) == IF has(r, c) THEN CellValue(cell(r, c), types[c]) ELSE Null
             vals == [r \in 1..nr |-> [c \in 1..nc |-> val(r, c)]]
             dup == \E i, j \in 1..nc : i # j /\ hd[i] = hd[j]
             \* a column that starts with a date and goes on with text that is none
             mixed == \E c \in 1..nc : types[c] = "datetime" /\ \E r \in 1..nr : vals[r][c] = NoVal
         IN IF dup \/ mixed \/ (\E c \in 1..nc : types[c] = "open") \/ (\E r \in 1..nr, c \in 1..nc : vals[r][c] = Open) THEN OpenR
            ELSE IF \E r \in 1..nr, c \in 1..nc : vals[r][c] = NoVal THEN Fail(Null, h)
            ELSE NewArr([r \in 1..nr |-> <<"o", Len(h) + r>>], h \o [r \in 1..nr |-> <<"o", [c \in 1..nc |-> <<hd[c], vals[r][c]>>]>>])
DataParseCSV(h, args) ==
    LET texts == SelectSeq(args, LAMBDA v : v # Null)
        \* the parts are texts of whole lines
        join == FoldLeft(LAMBDA acc, v : IF acc = <<>> \/ acc[Len(acc)] \in {10, 13} THEN acc \o v[2] ELSE acc \o <<10>> \o v[2], <<>>, texts)
    IN IF \E i \in 1..Len(texts) : texts[i] = Open THEN OpenR
       ELSE IF \E i \in 1..Len(texts) : texts[i][1] # "s" THEN Ok(Null, h)
       ELSE LET r == Cells(join, 1, "start", <<>>, <<>>, <<>>) IN IF r[1] = "open" THEN OpenR ELSE ParseCSV(h, r[2])

\* ---- validation of tables of values --------------------------------------------------
ValType(v) == CASE v[1] = "b" -> "boolean" [] IsNum(v) -> "number" [] v[1] = "d" -> "datetime" [] v[1] = "s" -> "string" [] OTHER -> ""
DataValidate(h, data, csv) ==
    IF csv[2] \/ ~AllObjects(h, data) THEN OpenR
    ELSE LET rows == Items(h, data)
             fs == FieldNames(h, rows)
             ts(f) == SelectSeq([i \in 1..Len(rows) |-> ValType(Field(h, rows[i], f))], LAMBDA x : x # "")
             type(f) == IF ts(f) = <<>> THEN "string" ELSE ts(f)[1]
             bad == \E i \in 1..Len(rows), k \in 1..Len(fs) :
                        LET v == Field(h, rows[i], fs[k]) IN v # Null /\ ValType(v) # type(fs[k])
             strange == \E i \in 1..Len(rows), k \in 1..Len(fs) : LET v == Field(h, rows[i], fs[k]) IN v # Null /\ ValType(v) = ""
         IN IF strange THEN OpenR ELSE IF bad THEN Fail(Null, h) ELSE Ok(data, h)

DataLib == {"dataAggregate", "dataParseCSV", "dataSort", "dataTop", "dataValidate"}
DataCall(f, V, h) ==
    CASE f = "dataAggregate" -> DataAggregate(h, V[1], V[2])
      [] f = "dataParseCSV" -> DataParseCSV(h, V[1][2])
      [] f = "dataSort" -> DataSort(h, V[1], V[2])
      [] f = "dataTop" -> DataTop(h, V[1], V[2], V[3])
      [] OTHER -> DataValidate(h, V[1], V[2])
=============================================================================
