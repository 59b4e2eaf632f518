-------------------------------- MODULE Values --------------------------------
(* BareScript values and the heap of shared containers.                        *)
(*   <<"z">> null, <<"b", B>> boolean, numbers (F64), <<"s", text>>,            *)
(*   <<"d", day, ms, us>> datetime, <<"a", r>> array, <<"o", r>> object,        *)
(*   <<"fn", r>> script function or partial, <<"lib", name>> library function,  *)
(*   <<"host", name>> host function, <<"re", r>> regex, <<"uk">> other host     *)
(*   values.  <<"none">>: no result, <<"open">>: the specification does not say *)
(* Heap cells: <<"a", items>>, <<"o", <<key, value>> pairs in insertion order>>,*)
(*   <<"fs", function index>>, <<"fp", function value, args>>, <<"re", text>>   *)
EXTENDS Calendar, Escape

Null == <<"z">>
Bool(b) == <<"b", b>>
Str(t) == <<"s", t>>
NoVal == <<"none">>
Open == <<"open">>
NInt0(k) == <<"n", k>>
IsFun(v) == v[1] \in {"fn", "lib", "host"}

TypeOf(v) ==
    CASE v[1] = "z" -> "null" [] v[1] = "b" -> "boolean" [] v[1] = "s" -> "string" [] v[1] = "d" -> "datetime"
      [] v[1] = "a" -> "array" [] v[1] = "o" -> "object" [] v[1] = "re" -> "regex" [] v[1] = "uk" -> "unknown"
      [] IsFun(v) -> "function" [] OTHER -> "number"
\* alphabetical rank of the type name
TypeRank(v) == LET t == TypeOf(v) IN
    CASE t = "array" -> 1 [] t = "boolean" -> 2 [] t = "datetime" -> 3 [] t = "function" -> 4 [] t = "null" -> 5 [] t = "number" -> 6
      [] t = "object" -> 7 [] t = "regex" -> 8 [] t = "string" -> 9 [] OTHER -> 10
TypeText(v) == LET t == TypeOf(v) IN
    CASE t = "array" -> <<97, 114, 114, 97, 121>> [] t = "boolean" -> <<98, 111, 111, 108, 101, 97, 110>>
      [] t = "datetime" -> <<100, 97, 116, 101, 116, 105, 109, 101>> [] t = "function" -> <<102, 117, 110, 99, 116, 105, 111, 110>>
      [] t = "null" -> <<110, 117, 108, 108>> [] t = "number" -> <<110, 117, 109, 98, 101, 114>>
      [] t = "object" -> <<111, 98, 106, 101, 99, 116>> [] t = "regex" -> <<114, 101, 103, 101, 120>>
      [] t = "string" -> <<115, 116, 114, 105, 110, 103>> [] OTHER -> <<>>

Items(h, v) == h[v[2]][2]

\* truthiness
Truthy(v, h) ==
    CASE v[1] = "z" -> FALSE [] v[1] = "b" -> v[2] [] v[1] = "s" -> v[2] # <<>> [] v[1] = "n" -> v[2] # 0
      [] v[1] = "nz" -> FALSE [] v[1] = "a" -> Items(h, v) # <<>> [] OTHER -> TRUE

KeyLt(p, q) == TCmp(p[1], q[1]) < 0
SortedPairs(ps) == StableSort(ps, KeyLt)

Sgn3(k) == IF k < 0 THEN -1 ELSE IF k > 0 THEN 1 ELSE 0
(* The value order: -1, 0, 1; 2: no result (a container contains itself);       *)
(* 3: left open (NaN, unspecified numbers)                                       *)
RECURSIVE Cmp(_, _, _, _), CmpSeq(_, _, _, _, _), CmpPairs(_, _, _, _, _)
\* path: the pairs of containers being compared
Cmp(a, b, h, path) ==
    IF a = Open \/ b = Open THEN 3
    ELSE IF a[1] = "z" THEN (IF b[1] = "z" THEN 0 ELSE -1)
    ELSE IF b[1] = "z" THEN 1
    ELSE IF TypeRank(a) # TypeRank(b) THEN Sgn3(TypeRank(a) - TypeRank(b))
    ELSE LET t == TypeOf(a)
         IN CASE t = "string" -> TCmp(a[2], b[2])
              [] t = "boolean" -> (IF a = b THEN 0 ELSE IF b[2] THEN -1 ELSE 1)
              [] t = "number" -> (IF a[1] \in {"nan", "any", "near"} \/ b[1] \in {"nan", "any", "near"} THEN 3 ELSE NCmp(a, b))
              [] t = "datetime" -> DTCmp(a, b)
              [] t \in {"array", "object"} ->
                   (IF <<a[2], b[2]>> \in path THEN 2
                    ELSE IF Cardinality(path) >= 60 THEN 3
                    ELSE LET p == path \cup {<<a[2], b[2]>>}
                         IN IF t = "array" THEN CmpSeq(Items(h, a), Items(h, b), 1, h, p)
                            ELSE CmpPairs(SortedPairs(Items(h, a)), SortedPairs(Items(h, b)), 1, h, p))
              [] OTHER -> 0
CmpSeq(s, t, i, h, path) ==
    IF i > Len(s) THEN (IF i > Len(t) THEN 0 ELSE -1)
    ELSE IF i > Len(t) THEN 1
    ELSE LET c == Cmp(s[i], t[i], h, path) IN IF c # 0 THEN c ELSE CmpSeq(s, t, i + 1, h, path)
CmpPairs(s, t, i, h, path) ==
    IF i > Len(s) THEN (IF i > Len(t) THEN 0 ELSE -1)
    ELSE IF i > Len(t) THEN 1
    ELSE LET k == TCmp(s[i][1], t[i][1])
         IN IF k # 0 THEN k
            ELSE LET c == Cmp(s[i][2], t[i][2], h, path) IN IF c # 0 THEN c ELSE CmpPairs(s, t, i + 1, h, path)
Compare(a, b, h) == Cmp(a, b, h, {})

\* ---- objects ------------------------------------------------------------------
RECURSIVE KeyIx(_, _, _)
KeyIx(ps, k, i) == IF i > Len(ps) THEN 0 ELSE IF ps[i][1] = k THEN i ELSE KeyIx(ps, k, i + 1)
PairGet(ps, k, dflt) == LET i == KeyIx(ps, k, 1) IN IF i = 0 THEN dflt ELSE ps[i][2]
PairSet(ps, k, v) == LET i == KeyIx(ps, k, 1) IN IF i = 0 THEN Append(ps, <<k, v>>) ELSE [ps EXCEPT ![i] = <<k, v>>]
PairDel(ps, k) == SelectSeq(ps, LAMBDA p : p[1] # k)

\* ---- text of values -----------------------------------------------------------
(* A text may contain -1 (the value has no text) or -2 (left open)               *)
BadText(t) == \E i \in 1..Len(t) : t[i] < 0
TextVal(t) == IF \E i \in 1..Len(t) : t[i] = -1 THEN NoVal ELSE IF BadText(t) THEN Open ELSE Str(t)

NullT == <<110, 117, 108, 108>>
TrueT == <<116, 114, 117, 101>>
FalseT == <<102, 97, 108, 115, 101>>
FunctionT == <<60, 102, 117, 110, 99, 116, 105, 111, 110, 62>>
RegexT == <<60, 114, 101, 103, 101, 120, 62>>

\* a character of a JSON string: printable ASCII, the short escapes, otherwise the four-digit escape of each UTF-16 unit
Hx(d) == IF d < 10 THEN 48 + d ELSE 87 + d
U4(c) == <<92, 117, Hx(c \div 4096), Hx((c \div 256) % 16), Hx((c \div 16) % 16), Hx(c % 16)>>
JChar(c) ==
    CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
      [] c < 0 -> <<-2>>
      [] c > 65535 -> U4(55296 + ((c - 65536) \div 1024)) \o U4(56320 + ((c - 65536) % 1024))
      [] c < 32 \/ c > 126 -> U4(c)
      [] OTHER -> <<c>>
JStr(t) == <<34>> \o FoldLeft(LAMBDA acc, c : acc \o JChar(c), <<>>, t) \o <<34>>
\* the process time zone of machine traces is UTC
DTText(v) == ISOText(v, 0)
RECURSIVE JText(_, _, _, _)
\* path: the containers being written (its size is the depth); ind: 0 writes one line
JText(v, h, path, ind) ==
    CASE v[1] = "z" -> NullT
      [] v[1] = "b" -> (IF v[2] THEN TrueT ELSE FalseT)
      [] v[1] = "s" -> JStr(v[2])
      [] v[1] = "d" -> JStr(DTText(v))
      [] v[1] \in {"a", "o"} ->
           (IF v[2] \in path THEN <<-1>>
            ELSE IF Cardinality(path) >= 60 THEN <<-2>>
            ELSE LET p == path \cup {v[2]}
                     nl(n) == IF ind = 0 THEN <<>> ELSE <<10>> \o Repeat(<<32>>, n * ind)
                     block(o, items, c) == IF items = <<>> THEN <<o, c>>
                                           ELSE <<o>> \o nl(Cardinality(p)) \o JoinWith(items, <<44>> \o nl(Cardinality(p))) \o nl(Cardinality(path)) \o <<c>>
                 IN IF v[1] = "a" THEN block(91, [i \in 1..Len(Items(h, v)) |-> JText(Items(h, v)[i], h, p, ind)], 93)
                    ELSE LET ps == SortedPairs(Items(h, v))
                         IN block(123, [i \in 1..Len(ps) |-> JStr(ps[i][1]) \o (IF ind = 0 THEN <<58>> ELSE <<58, 32>>) \o JText(ps[i][2], h, p, ind)], 125))
      [] IsFun(v) -> JStr(FunctionT)
      [] v[1] \in {"re", "uk"} -> NullT
      [] v[1] \in {"nan", "inf"} -> <<-1>>
      [] v[1] \in {"any", "near", "open"} -> <<-2>>
      [] v[1] = "nz" -> <<48>>
      [] OTHER -> NText(v)
JSONText(v, h) == JText(v, h, {}, 0)
\* string conversion
VText(v, h) ==
    CASE v[1] = "z" -> NullT
      [] v[1] = "b" -> (IF v[2] THEN TrueT ELSE FalseT)
      [] v[1] = "s" -> v[2]
      [] v[1] = "d" -> DTText(v)
      [] v[1] \in {"a", "o"} -> JSONText(v, h)
      [] IsFun(v) -> FunctionT
      [] v[1] = "re" -> RegexT
      [] v[1] \in {"uk", "any", "near", "open"} -> <<-2>>
      [] v[1] \in {"nan", "inf"} -> <<-2>>
      [] OTHER -> NText(v)

\* ---- matching a specification value graph with an observed one -------------------
(* mp pairs specification references with observed references (a bijection);      *)
(* the result is <<matches, mp>>                                                  *)
PairSpec(mp, r) == {p \in mp : p[1] = r}
NotAfter(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] <= b[4])))
RECURSIVE MatchV(_, _, _, _, _), MatchSeq(_, _, _, _, _, _), MatchPairs(_, _, _, _, _, _)
MatchV(v, o, h, oh, mp) ==
    IF v[1] \in {"a", "o"} THEN
        IF o[1] # v[1] THEN <<FALSE, mp>>
        ELSE IF <<v[2], o[2]>> \in mp THEN <<TRUE, mp>>
        ELSE IF \E p \in mp : p[1] = v[2] \/ p[2] = o[2] THEN <<FALSE, mp>>
        ELSE LET m1 == mp \cup {<<v[2], o[2]>>}
                 c == h[v[2]][2] oc == oh[o[2]][2]
             IN IF Len(c) # Len(oc) THEN <<FALSE, m1>>
                ELSE IF v[1] = "a" THEN MatchSeq(c, oc, 1, h, oh, m1) ELSE MatchPairs(c, oc, 1, h, oh, m1)
    ELSE IF v[1] = "fn" THEN <<o[1] = "fn", mp>>
    ELSE IF v[1] = "re" THEN <<o[1] = "re", mp>>
    ELSE IF v[1] \in {"lib", "host"} THEN <<o = v, mp>>
    ELSE IF v[1] = "unk" /\ Len(v) > 1 THEN
        <<CASE v[2] = "now" -> o[1] = "d" /\ NotAfter(v[3], o) /\ NotAfter(o, v[4])
            [] v[2] = "today" -> o[1] = "d" /\ o[3] = 0 /\ o[4] = 0 /\ o[2] >= v[3][2] /\ o[2] <= v[4][2]
            [] OTHER -> IsNum(o) /\ IsFinite(o) /\ NCmp(o, NZero) >= 0 /\ NCmp(o, <<"n", 1>>) < 0, mp>>
    ELSE IF v[1] \in {"open", "unk"} THEN <<TRUE, mp>>
    ELSE IF v[1] = "rx" THEN <<o[1] = "s" /\ RxMatches(o[2], v[2]), mp>>
    ELSE IF v[1] = "pct" THEN <<o[1] = "s" /\ PctMatches(o[2], v[2]), mp>>
    ELSE IF v[1] = "any" THEN <<IsNum(o), mp>>
    ELSE IF v[1] = "near" THEN <<IsNum(o) /\ IsFinite(o) /\ NCmp(NAbs(NSub(v[2], o)), NMul(NAbs(v[2]), <<"f", 0, <<1>>, -36>>)) <= 0, mp>>
    ELSE IF v[1] \in {"n", "nz"} THEN <<v = o \/ (IsNum(o) /\ o[1] \in {"n", "nz"} /\ IsZero(v) /\ IsZero(o)), mp>>
    ELSE <<v = o, mp>>
MatchSeq(s, t, i, h, oh, mp) ==
    IF i > Len(s) THEN <<TRUE, mp>>
    ELSE LET r == MatchV(s[i], t[i], h, oh, mp) IN IF r[1] THEN MatchSeq(s, t, i + 1, h, oh, r[2]) ELSE r
MatchPairs(s, t, i, h, oh, mp) ==
    IF i > Len(s) THEN <<TRUE, mp>>
    ELSE IF s[i][1] # t[i][1] THEN <<FALSE, mp>>
    ELSE LET r == MatchV(s[i][2], t[i][2], h, oh, mp) IN IF r[1] THEN MatchPairs(s, t, i + 1, h, oh, r[2]) ELSE r
=============================================================================
