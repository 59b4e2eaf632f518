------------------------------- MODULE JSONRead -------------------------------
(* Standard JSON text -> value graph.                                            *)
(* ReadJSON(text, heap) is <<"ok", value, heap'>>, <<"bad">> or <<"open">>        *)
EXTENDS Values

IsWs(c) == c \in {9, 10, 13, 32}
RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF i <= Len(t) /\ IsWs(t[i]) THEN SkipWs(t, i + 1) ELSE i
IsHex4(t, i) == i + 3 <= Len(t) /\ \A k \in i..(i + 3) : HexVal(t[k]) >= 0
Hex4(t, i) == ((HexVal(t[i]) * 16 + HexVal(t[i + 1])) * 16 + HexVal(t[i + 2])) * 16 + HexVal(t[i + 3])
EscVal(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
\* a string from the character after the quote: <<text, next index>> or <<"bad">>
RECURSIVE RdStr(_, _, _)
RdStr(t, i, acc) ==
    IF i > Len(t) THEN <<"bad">>
    ELSE IF t[i] = 34 THEN <<acc, i + 1>>
    ELSE IF t[i] < 32 THEN <<"bad">>
    ELSE IF t[i] # 92 THEN RdStr(t, i + 1, Append(acc, t[i]))
    ELSE IF i + 1 > Len(t) THEN <<"bad">>
    ELSE IF t[i + 1] # 117 THEN (IF EscVal(t[i + 1]) < 0 THEN <<"bad">> ELSE RdStr(t, i + 2, Append(acc, EscVal(t[i + 1]))))
    ELSE IF ~IsHex4(t, i + 2) THEN <<"bad">>
    ELSE LET u == Hex4(t, i + 2)
         IN IF u >= 55296 /\ u < 56320 /\ i + 7 <= Len(t) /\ t[i + 6] = 92 /\ t[i + 7] = 117 /\ IsHex4(t, i + 8)
               /\ Hex4(t, i + 8) >= 56320 /\ Hex4(t, i + 8) < 57344
            THEN RdStr(t, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (Hex4(t, i + 8) - 56320)))
            ELSE RdStr(t, i + 6, Append(acc, u))
\* a number: the end index, or 0
RdNumEnd(t, i) ==
    LET i1 == IF i <= Len(t) /\ t[i] = 45 THEN i + 1 ELSE i
        i2 == DigitsEnd(t, i1)
        intOk == i2 > i1 /\ (t[i1] # 48 \/ i2 = i1 + 1)
        i3 == IF i2 <= Len(t) /\ t[i2] = 46 /\ DigitsEnd(t, i2 + 1) > i2 + 1 THEN DigitsEnd(t, i2 + 1) ELSE i2
        hasE == i3 <= Len(t) /\ t[i3] \in {69, 101}
        i4 == IF hasE /\ i3 + 1 <= Len(t) /\ t[i3 + 1] \in {43, 45} THEN i3 + 2 ELSE i3 + 1
        i5 == IF hasE /\ DigitsEnd(t, i4) > i4 THEN DigitsEnd(t, i4) ELSE i3
    IN IF intOk THEN i5 ELSE 0
Word(t, i, w) == StartsAt(t, w, i)
\* <<value, heap, next index>>, <<"bad">> or <<"open">>
RECURSIVE RdVal(_, _, _, _), RdItems(_, _, _, _, _), RdPairs(_, _, _, _, _)
RdVal(t, i0, h, fuel) ==
    LET i == SkipWs(t, i0)
    IN IF i > Len(t) THEN <<"bad">>
       ELSE IF fuel = 0 THEN <<"open">>
       ELSE IF t[i] = 34 THEN LET r == RdStr(t, i + 1, <<>>) IN IF r = <<"bad">> THEN r ELSE <<Str(r[1]), h, r[2]>>
       ELSE IF t[i] = 91 THEN
            LET j == SkipWs(t, i + 1)
                h1 == Append(h, <<"a", <<>>>>)
                fin(items, h2, nx) == <<<<"a", Len(h) + 1>>, [h2 EXCEPT ![Len(h) + 1] = <<"a", items>>], nx>>
            IN IF j <= Len(t) /\ t[j] = 93 THEN fin(<<>>, h1, j + 1)
               ELSE LET r == RdItems(t, j, h1, <<>>, fuel) IN IF Len(r) = 1 THEN r ELSE fin(r[1], r[2], r[3])
       ELSE IF t[i] = 123 THEN
            LET j == SkipWs(t, i + 1)
                h1 == Append(h, <<"o", <<>>>>)
                fin(ps, h2, nx) == <<<<"o", Len(h) + 1>>, [h2 EXCEPT ![Len(h) + 1] = <<"o", ps>>], nx>>
            IN IF j <= Len(t) /\ t[j] = 125 THEN fin(<<>>, h1, j + 1)
               ELSE LET r == RdPairs(t, j, h1, <<>>, fuel) IN IF Len(r) = 1 THEN r ELSE fin(r[1], r[2], r[3])
       ELSE IF Word(t, i, NullT) THEN <<Null, h, i + 4>>
       ELSE IF Word(t, i, TrueT) THEN <<Bool(TRUE), h, i + 4>>
       ELSE IF Word(t, i, FalseT) THEN <<Bool(FALSE), h, i + 5>>
       \* NaN / Infinity spellings are outside JSON and left open
       ELSE IF t[i] \in {73, 78} \/ (t[i] = 45 /\ i + 1 <= Len(t) /\ t[i + 1] = 73) THEN <<"open">>
       ELSE LET e == RdNumEnd(t, i)
            IN IF e = 0 THEN <<"bad">>
               ELSE LET v == ReadNumber(SubSeq(t, i, e - 1))
                    IN IF v[1] = "inf" THEN <<"open">> ELSE <<v, h, e>>
RdItems(t, i, h, acc, fuel) ==
    LET r == RdVal(t, i, h, fuel - 1)
    IN IF Len(r) = 1 THEN r
       ELSE LET j == SkipWs(t, r[3])
            IN IF j > Len(t) THEN <<"bad">>
               ELSE IF t[j] = 93 THEN <<Append(acc, r[1]), r[2], j + 1>>
               ELSE IF t[j] = 44 THEN RdItems(t, j + 1, r[2], Append(acc, r[1]), fuel)
               ELSE <<"bad">>
RdPairs(t, i0, h, acc, fuel) ==
    LET i == SkipWs(t, i0)
    IN IF i > Len(t) \/ t[i] # 34 THEN <<"bad">>
       ELSE LET k == RdStr(t, i + 1, <<>>)
            IN IF k = <<"bad">> THEN k
               ELSE LET c == SkipWs(t, k[2])
                    IN IF c > Len(t) \/ t[c] # 58 THEN <<"bad">>
                       ELSE LET r == RdVal(t, c + 1, h, fuel - 1)
                            IN IF Len(r) = 1 THEN r
                               ELSE LET j == SkipWs(t, r[3]) ps == PairSet(acc, k[1], r[1])
                                    IN IF j > Len(t) THEN <<"bad">>
                                       ELSE IF t[j] = 125 THEN <<ps, r[2], j + 1>>
                                       ELSE IF t[j] = 44 THEN RdPairs(t, j + 1, r[2], ps, fuel)
                                       ELSE <<"bad">>
ReadJSON(t, h) ==
    LET r == RdVal(t, 1, h, 60)
    IN IF Len(r) = 1 THEN r ELSE IF SkipWs(t, r[3]) # Len(t) + 1 THEN <<"bad">> ELSE <<"ok", r[1], r[2]>>
=============================================================================
