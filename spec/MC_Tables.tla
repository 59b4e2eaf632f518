------------------------------- MODULE MC_Tables -------------------------------
(* Laws of the relational operators (Data) over all small tables: rows <<a, m>> with   *)
(* field a one of Keys (NoVal: the row has none), m one of Meas, and their position p.   *)
(* (ByText: rows are grouped by the text of the key.  NoTaken: joined names avoid the      *)
(* left names only.  Unstable: rows with equal keys are sorted in the opposite order.)     *)
EXTENDS Data

CONSTANTS MaxRows, Keys, Meas, Fault
VARIABLES tab, n

KeyPool == [none |-> NoVal, null |-> Null, one |-> <<"n", 1>>, onetext |-> Str(<<49>>), yes |-> Bool(TRUE), arr |-> <<"a", 1>>, arrtext |-> Str(<<91, 49, 93>>)]
Row0 == {<<k, m>> : k \in Keys, m \in Meas}
Init == tab = <<>> /\ n = 0
Next == \/ n = 0 /\ Len(tab) < MaxRows /\ \E r \in Row0 : tab' = Append(tab, r) /\ n' = 0
        \/ n = 0 /\ n' = 1 /\ tab' = tab
Spec == Init /\ [][Next]_<<tab, n>>
FA == <<97>> FM == <<109>> FP == <<112>>
Meas1(m) == IF m = 9 THEN Null ELSE <<"n", m - 1>>
Cell(i) == LET k == KeyPool[tab[i][1]] IN <<"o", (IF k = NoVal THEN <<>> ELSE <<<<FA, k>>>>) \o <<<<FM, Meas1(tab[i][2])>>, <<FP, <<"n", i>>>>>>>>
\* heap: 1 an array as a key, 2 the table, 3.. its rows
N == Len(tab)
H == <<<<"a", <<<<"n", 1>>>>>>, <<"a", [i \in 1..N |-> <<"o", 2 + i>>]>>>> \o [i \in 1..N |-> Cell(i)]
                 \o <<<<"a", <<Str(FA)>>>>>>
Data0 == <<"a", 2>>
Cats == <<"a", N + 3>>
Rows(r) == Items(r.h, r.v)
Pos(h, row) == Field(h, row, FP)[2]
PosSeq(r) == [i \in 1..Len(Rows(r)) |-> Pos(r.h, Rows(r)[i])]
Key(i) == LET k == KeyPool[tab[i][1]] IN IF k = NoVal THEN Null ELSE k
\* the key relation, stated directly
KeyEq(i, j) == LET a == IF Fault = "ByText" THEN Str(VText(Key(i), H)) ELSE Key(i)
                   b == IF Fault = "ByText" THEN Str(VText(Key(j), H)) ELSE Key(j)
               IN IF Fault = "ByText" THEN a = b ELSE Compare(a, b, H) = 0
Class(i) == {j \in 1..N : KeyEq(i, j)}

\* filter-like operators give subsequences; top: of every class the first c rows, classes in order of appearance
TopLaw == n = 1 => \A c \in 1..2 :
    LET r == DataTop(H, Data0, <<"n", c>>, Cats) s == PosSeq(r)
    IN /\ r.k = "ok"
       /\ {s[i] : i \in 1..Len(s)} = {i \in 1..N : Cardinality({j \in Class(i) : j < i}) < c}
       /\ Len(s) = Cardinality({s[i] : i \in 1..Len(s)})
       /\ \A x, y \in 1..Len(s) : x < y /\ KeyEq(s[x], s[y]) => s[x] < s[y]
       /\ \A x, y \in 1..Len(s) : x < y /\ ~KeyEq(s[x], s[y]) => (CHOOSE a \in Class(s[x]) : \A b \in Class(s[x]) : a <= b) < (CHOOSE a \in Class(s[y]) : \A b \in Class(s[y]) : a <= b)
Sorted(desc) ==
    LET keys == <<<<FA, desc>>>> rows == Items(H, Data0)
        lt(x, y) == RowCmp(x, y, keys, 1, H) = -1
        s0 == StableSort(rows, lt)
    IN [i \in 1..N |-> Pos(H, s0[i])]
Ord(i, j, desc) == IF desc THEN Compare(Key(j), Key(i), H) ELSE Compare(Key(i), Key(j), H)
SortLaw == n = 1 => \A desc \in BOOLEAN :
    LET s == Sorted(desc)
    IN /\ {s[i] : i \in 1..N} = 1..N
       /\ \A x, y \in 1..N : x < y => Ord(s[x], s[y], desc) <= 0
       /\ \A x, y \in 1..N : x < y /\ Ord(s[x], s[y], desc) = 0 => IF Fault = "Unstable" THEN s[x] > s[y] ELSE s[x] < s[y]
\* aggregation: the classes partition the rows, counts and sums add up
GroupLaw == n = 1 =>
    LET g == Groups(H, Items(H, Data0), <<FA>>)
        member(k) == {Pos(H, g[k][2][i]) : i \in 1..Len(g[k][2])}
        vals(k) == SelectSeq([i \in 1..Len(g[k][2]) |-> Field(H, g[k][2][i], FM)], LAMBDA v : v # Null)
        tot(k) == IF vals(k) = <<>> THEN 0 ELSE LET t == ExactTotal(vals(k)) IN NInt(t)
        cnt(k) == IF vals(k) = <<>> THEN 0 ELSE AggVal("count", vals(k), H)[2]
        all == SelectSeq([i \in 1..N |-> tab[i][2]], LAMBDA v : v # 9)
    IN /\ UNION {member(k) : k \in 1..Len(g)} = 1..N
       /\ \A k, l \in 1..Len(g) : k # l => member(k) \cap member(l) = {}
       /\ \A k \in 1..Len(g) : \A i \in member(k) : member(k) = Class(i)
       /\ FoldLeft(LAMBDA acc, k : acc + cnt(k), 0, Idx(Len(g))) = Len(all)
       /\ FoldLeft(LAMBDA acc, k : acc + tot(k), 0, Idx(Len(g))) = FoldLeft(LAMBDA acc, v : acc + v - 1, 0, all)
       /\ \A k \in 1..Len(g) : vals(k) # <<>> =>
            LET lo == AggVal("min", vals(k), H)[2] hi == AggVal("max", vals(k), H)[2] av == Mean(vals(k))
            IN /\ \A i \in 1..Len(vals(k)) : lo <= vals(k)[i][2] /\ vals(k)[i][2] <= hi
               /\ \E i \in 1..Len(vals(k)) : vals(k)[i][2] = lo
               /\ \E i \in 1..Len(vals(k)) : vals(k)[i][2] = hi
               /\ NCmp(<<"n", lo>>, av) <= 0 /\ NCmp(av, <<"n", hi>>) <= 0
               /\ (N <= 2 => ((StdDev(vals(k)) = NZero) <=> lo = hi))
\* join of the table with itself: exactly the pairs of equal keys, in order; unmatched left rows once (or never);
\* every left field is kept, every right field arrives under a name of its own
KeySeq == [i \in 1..N |-> Key(i)]
FA2 == FA \o <<50>>
JoinLaw == n = 1 => \A left \in BOOLEAN :
    LET r == JoinRows(H, Items(H, Data0), Items(H, Data0), KeySeq, KeySeq, left)
        names == IF Fault = "NoTaken" THEN [i \in 1..3 |-> <<<<97>>, <<109>>, <<112>>>>[i]] ELSE <<FA2, FM \o <<50>>, FP \o <<50>>>>
        out == Rows(r)
        right(row) == PairGet(Items(r.h, row), names[3], Null)
        got == [i \in 1..Len(out) |-> <<Pos(r.h, out[i]), IF right(out[i]) = Null THEN 0 ELSE right(out[i])[2]>>]
        want == {<<i, j>> \in (1..N) \X (1..N) : KeyEq(i, j)}
    IN /\ r.k = "ok"
       /\ {got[i] : i \in 1..Len(got)} = want /\ Len(got) = Cardinality(want)      \* every row has itself
       /\ \A x, y \in 1..Len(got) : x < y => got[x][1] < got[y][1] \/ (got[x][1] = got[y][1] /\ got[x][2] < got[y][2])
       /\ \A x \in 1..Len(out) : \A f \in {FA, FM, FP} : Field(r.h, out[x], f) = Field(H, <<"o", 2 + got[x][1]>>, f)
       /\ \A x \in 1..Len(out) : PairGet(Items(r.h, out[x]), names[2], Null) = Field(H, <<"o", 2 + got[x][2]>>, FM)
\* with no right rows: the left rows or nothing
Lonely == n = 1 => \A left \in BOOLEAN :
    LET r == JoinRows(H, Items(H, Data0), <<>>, KeySeq, <<>>, left) IN PosSeq(r) = (IF left THEN <<>> ELSE Idx(N))
=============================================================================
