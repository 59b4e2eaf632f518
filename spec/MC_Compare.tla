------------------------------ MODULE MC_Compare ------------------------------
(* The laws of the value order, on every pair and triple of a universe of nested values, *)
(* and of its consumers on every short list: a sort by Compare is an ordered permutation.  *)
EXTENDS Values, TLC

CONSTANTS Sizes   \* the leaves used in containers (1..6)

Leaves == <<Null, Bool(FALSE), Bool(TRUE), NInt0(0), <<"nz">>, NInt0(1), <<"f", 0, <<1>>, -1>>, Str(<<>>), Str(<<97>>), Str(<<97, 98>>), Str(<<66>>),
            <<"d", 738945, 0, 0>>, <<"d", 738945, 1, 0>>, <<"host", "hlog">>, <<"re", <<>>>>, <<"uk">>>>
Small == SubSeq(<<Null, NInt0(1), NInt0(0), Str(<<97>>), Bool(TRUE), <<"d", 738945, 0, 0>>>>, 1, Sizes)
K == <<97>>   L == <<98>>
S(i) == Small[i]
I == 1..Len(Small)
Cells == <<<<"a", <<>>>>, <<"o", <<>>>>>>
         \o [i \in I |-> <<"a", <<S(i)>>>>]
         \o [i \in I |-> <<"o", <<<<K, S(i)>>>>>>]
         \o [i \in I |-> <<"o", <<<<L, S(i)>>>>>>]
         \o [p \in 1..Len(Small) * Len(Small) |-> <<"a", <<S(((p - 1) \div Len(Small)) + 1), S(((p - 1) % Len(Small)) + 1)>>>>]
         \o [p \in 1..Len(Small) * Len(Small) |-> <<"o", <<<<L, S(((p - 1) \div Len(Small)) + 1)>>, <<K, S(((p - 1) % Len(Small)) + 1)>>>>>>]
\* containers of containers
H1 == Cells
Inner == SubSeq(<<1, 2, 3, 3 + Len(Small), 3 + 3 * Len(Small)>>, 1, 5)
Ref(r) == <<H1[r][1], r>>
H == H1 \o [i \in 1..5 |-> <<"a", <<Ref(Inner[i])>>>>] \o [i \in 1..5 |-> <<"o", <<<<K, Ref(Inner[i])>>>>>>]
       \o [i \in 1..5 |-> <<"a", <<Ref(Inner[i]), NInt0(1)>>>>]
U == Leaves \o [r \in 1..Len(H) |-> <<H[r][1], r>>]
N == TLCGet(1)[3]
VARIABLES i, j, k
vars == <<i, j, k>>
M(u, h) == [x \in 1..Len(u) |-> [y \in 1..Len(u) |-> Compare(u[x], u[y], h)]]
\* computed once
ASSUME LET u == U h == H IN TLCSet(1, <<M(u, h), u, Len(u)>>)
C(x, y) == TLCGet(1)[1][x][y]
UV(x) == TLCGet(1)[2][x]
Init == i \in 1..N /\ j \in 1..N /\ k = 0
Next == k < N /\ k' = k + 1 /\ UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_vars
Total == C(i, j) \in {-1, 0, 1}
Antisymmetric == C(i, j) = -C(j, i)
Reflexive == C(i, i) = 0
Transitive == k > 0 /\ C(i, j) <= 0 /\ C(j, k) <= 0 => C(i, k) <= 0
NullFirst == UV(i) = Null => C(i, j) = (IF UV(j) = Null THEN 0 ELSE -1)
ByTypeName == UV(i) # Null /\ UV(j) # Null /\ TypeOf(UV(i)) # TypeOf(UV(j)) =>
    C(i, j) = (IF TCmp(TypeText(UV(i)), TypeText(UV(j))) < 0 THEN -1 ELSE 1) \/ "unknown" \in {TypeOf(UV(i)), TypeOf(UV(j))}
Lt(x, y) == C(x, y) < 0
SortLaw == k > 0 => LET s == <<i, j, k>> t == StableSort(s, Lt)
                    IN C(t[1], t[2]) <= 0 /\ C(t[2], t[3]) <= 0 /\ {t[x] : x \in 1..3} = {s[x] : x \in 1..3}
=============================================================================
