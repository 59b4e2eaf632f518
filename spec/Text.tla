-------------------------------- MODULE Text --------------------------------
(* Text as sequences of Unicode code points.                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsIdStart(c) == IsAlpha(c) \/ c = 95
IsIdChar(c) == IsIdStart(c) \/ IsDigit(c)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 31) \/ c = 133 \/ c = 160
              \/ (c >= 5760 /\ (c \in {5760, 8232, 8233, 8239, 8287, 12288} \/ (c >= 8192 /\ c <= 8202)))

RECURSIVE TCmpFrom(_, _, _)
TCmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE TCmpFrom(a, b, i + 1)
TCmp(a, b) == IF a = b THEN 0 ELSE TCmpFrom(a, b, 1)

\* does t start with p at index i (1-based)
StartsAt(t, p, i) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
StartsWith(t, p) == StartsAt(t, p, 1)
EndsWith(t, p) == Len(p) <= Len(t) /\ StartsAt(t, p, Len(t) - Len(p) + 1)

\* smallest index >= i at which p occurs (0: none)
RECURSIVE Find(_, _, _)
Find(t, p, i) == IF i + Len(p) - 1 > Len(t) THEN 0 ELSE IF StartsAt(t, p, i) THEN i ELSE Find(t, p, i + 1)
\* greatest index <= i at which p occurs (0: none)
RECURSIVE FindLast(_, _, _)
FindLast(t, p, i) == IF i < 1 THEN 0 ELSE IF StartsAt(t, p, i) THEN i ELSE FindLast(t, p, i - 1)

From(t, i) == SubSeq(t, i, Len(t))

\* split at a non-empty separator
RECURSIVE SplitAt(_, _)
SplitAt(t, sep) == LET k == Find(t, sep, 1)
                   IN IF k = 0 THEN <<t>> ELSE <<SubSeq(t, 1, k - 1)>> \o SplitAt(From(t, k + Len(sep)), sep)
RECURSIVE JoinWith(_, _)
JoinWith(parts, sep) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1]
                        ELSE parts[1] \o sep \o JoinWith(Tail(parts), sep)
Replace(t, p, r) ==
    IF p = <<>> THEN r \o FoldLeft(LAMBDA acc, c : Append(acc, c) \o r, <<>>, t)
    ELSE JoinWith(SplitAt(t, p), r)

RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n <= 0 THEN <<>> ELSE IF n = 1 THEN t
                ELSE LET half == Repeat(t, n \div 2) IN IF n % 2 = 0 THEN half \o half ELSE half \o half \o t

RECURSIVE LStrip(_)
LStrip(t) == IF t # <<>> /\ IsSpace(t[1]) THEN LStrip(Tail(t)) ELSE t
RECURSIVE RStrip(_)
RStrip(t) == IF t # <<>> /\ IsSpace(t[Len(t)]) THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == LStrip(RStrip(t))

LowerCp(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
UpperCp(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c

\* decimal text of an integer
RECURSIVE NatText(_)
NatText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NatText(k \div 10), 48 + (k % 10))
IntText(k) == IF k < 0 THEN <<45>> \o NatText(-k) ELSE NatText(k)
Pad(t, n) == IF Len(t) >= n THEN t ELSE Repeat(<<48>>, n - Len(t)) \o t

\* stable insertion sort with an order predicate
InsertSorted(s, x, Lt(_, _)) ==
    LET k == Len(SelectSeq(s, LAMBDA y : ~Lt(x, y))) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
StableSort(s, Lt(_, _)) == FoldLeft(LAMBDA acc, x : InsertSorted(acc, x, Lt), <<>>, s)
=============================================================================
