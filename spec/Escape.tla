-------------------------------- MODULE Escape --------------------------------
(* Regular expressions that match one text exactly, and percent-encoding.         *)
EXTENDS Text

\* the text that a literal pattern matches; <<-1>> when it is no literal pattern
RxSpecial == {36, 40, 41, 42, 43, 46, 63, 91, 92, 94, 123, 124}     \* $ ( ) * + . ? [ \ ^ { |
RECURSIVE RxText(_, _)
RxText(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE LET one(c, n) == LET r == RxText(t, i + n) IN IF r = <<-1>> THEN r ELSE <<c>> \o r
         IN IF t[i] = 92 THEN \* an escape
                (IF i = Len(t) THEN <<-1>>
                 ELSE LET c == t[i + 1]
                      IN IF ~IsIdChar(c) THEN one(c, 2)
                         ELSE CASE c = 110 -> one(10, 2) [] c = 116 -> one(9, 2) [] c = 114 -> one(13, 2) [] c = 102 -> one(12, 2)
                                [] c = 118 -> one(11, 2) [] c = 97 -> one(7, 2) [] c = 95 -> one(95, 2) [] OTHER -> <<-1>>)
            ELSE IF t[i] = 91 /\ i + 2 <= Len(t) /\ t[i + 1] \notin {92, 93, 94} /\ t[i + 2] = 93 THEN one(t[i + 1], 3)
            ELSE IF t[i] \in RxSpecial THEN <<-1>>
            ELSE one(t[i], 1)
RxMatches(p, s) == RxText(p, 1) = s

Surrogate(c) == c >= 55296 /\ c <= 57343
Utf8Of(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(t) == FoldLeft(LAMBDA acc, c : acc \o Utf8Of(c), <<>>, t)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
\* the bytes of a percent-encoded text; <<-1>> when it is not one (characters outside printable ASCII, a bare "%")
RECURSIVE PctBytes(_, _)
PctBytes(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] <= 32 \/ t[i] > 126 THEN <<-1>>
    ELSE LET hex == t[i] = 37
             ok == hex => (i + 2 <= Len(t) /\ HexVal(t[i + 1]) >= 0 /\ HexVal(t[i + 2]) >= 0)
             r == IF ok THEN PctBytes(t, IF hex THEN i + 3 ELSE i + 1) ELSE <<-1>>
         IN IF r = <<-1>> THEN r ELSE <<IF hex THEN HexVal(t[i + 1]) * 16 + HexVal(t[i + 2]) ELSE t[i]>> \o r
PctMatches(p, s) == PctBytes(p, 1) = Utf8(s)
=============================================================================
