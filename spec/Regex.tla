---------------------------------- MODULE Regex ----------------------------------
(* A small part of the regular expressions: sequences of characters (or "." or an     *)
(* escaped punctuation character), each possibly with ? * +.  Rx(pattern) is <<TRUE,     *)
(* items>> or <<FALSE, <<>>>>; an item is <<character or -1 (any but a newline), min,      *)
(* many>>.  Matching takes as much as it can and gives back.                              *)
EXTENDS Text

RxMeta == {92, 94, 36, 46, 124, 40, 41, 91, 93, 123, 125, 42, 43, 63}
RxQuant == {63, 42, 43}
RECURSIVE RxItems(_, _, _)
RxItems(p, i, acc) ==
    IF i > Len(p) THEN <<TRUE, acc>>
    ELSE LET esc == p[i] = 92 /\ i < Len(p) /\ p[i + 1] \in RxMeta
             lit == p[i] \notin RxMeta
             c == IF esc THEN p[i + 1] ELSE IF p[i] = 46 THEN -1 ELSE p[i]
             j == IF esc THEN i + 2 ELSE i + 1
             q == j <= Len(p) /\ p[j] \in RxQuant
         IN IF ~(esc \/ lit \/ p[i] = 46) THEN <<FALSE, <<>>>>
            ELSE IF q /\ j < Len(p) /\ p[j + 1] \in RxQuant THEN <<FALSE, <<>>>>
            ELSE RxItems(p, IF q THEN j + 1 ELSE j,
                         Append(acc, IF ~q THEN <<c, 1, FALSE>> ELSE CASE p[j] = 63 -> <<c, 0, FALSE>> [] p[j] = 42 -> <<c, 0, TRUE>> [] OTHER -> <<c, 1, TRUE>>))
Rx(p) == RxItems(p, 1, <<>>)
RxOk(p) == p # <<>> /\ Rx(p)[1]
RxIs(c, x) == IF c = -1 THEN x # 10 ELSE c = x
\* the index after the match of the items from item k at i, or 0
RECURSIVE RxAt(_, _, _, _, _)
RxAt(it, k, t, i, got) ==
    IF k > Len(it) THEN i
    ELSE LET more == i <= Len(t) /\ RxIs(it[k][1], t[i]) /\ (got = 0 \/ it[k][3])
             r == IF more THEN RxAt(it, k, t, i + 1, 1) ELSE 0
         IN IF r # 0 THEN r
            ELSE IF got >= it[k][2] THEN RxAt(it, k + 1, t, i, 0)
            ELSE 0
\* the parts of a text between the matches (patterns that match nothing at all are left open by the caller)
RECURSIVE RxParts(_, _, _, _, _)
RxParts(it, t, i, from, acc) ==
    IF i > Len(t) THEN Append(acc, SubSeq(t, from, Len(t)))
    ELSE LET e == RxAt(it, 1, t, i, 0)
         IN IF e > i THEN RxParts(it, t, e, e, Append(acc, SubSeq(t, from, i - 1)))
            ELSE RxParts(it, t, i + 1, from, acc)
RxSplit(p, t) == RxParts(Rx(p)[2], t, 1, 1, <<>>)
RxEmpty(p) == \A k \in 1..Len(Rx(p)[2]) : Rx(p)[2][k][2] = 0
=============================================================================
