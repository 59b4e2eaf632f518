-------------------------------- MODULE MC_Diff --------------------------------
(* Line differences: all pairs of short line lists.  A difference is made by taking      *)
(* blocks off both sides in any way (Free), or as the look-ahead does: a run of equal lines;  *)
(* otherwise up to the first left line that still occurs on the right; otherwise all the       *)
(* rest.  The look-ahead is one of the ways (TakeBlock), always ends, and rebuilds both sides;    *)
(* equal sides give equal lines only.  (Drop: blocks of equal lines are not reported.)            *)
EXTENDS Diff, Integers, TLC

CONSTANTS MaxLen, Alphabet, Free, Drop
VARIABLES L, R, i, j, out
vars == <<L, R, i, j, out>>
Lists == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == L \in Lists /\ R = <<>> /\ i = -1 /\ j = 0 /\ out = <<>>
\* (the right side is chosen in a step of its own, to spread the work)
Choose == i = -1 /\ R' \in Lists /\ i' = 0 /\ UNCHANGED <<L, j, out>>
Block(t, ls) == out' = IF Drop /\ t = "Identical" THEN out ELSE Append(out, <<t, ls>>)
Adv(t, n) ==
    /\ n > 0
    /\ t \in {"Identical", "Remove"} => i + n <= Len(L)
    /\ t \in {"Identical", "Add"} => j + n <= Len(R)
    /\ t = "Identical" => SubSeq(L, i + 1, i + n) = SubSeq(R, j + 1, j + n)
    /\ i' = IF t = "Add" THEN i ELSE i + n
    /\ j' = IF t = "Remove" THEN j ELSE j + n
    /\ Block(t, IF t = "Add" THEN SubSeq(R, j + 1, j + n) ELSE SubSeq(L, i + 1, i + n))
    /\ UNCHANGED <<L, R>>
Left == Len(L) - i
Right == Len(R) - j
Run == CHOOSE n \in 0..Left : /\ \A k \in 1..n : j + k <= Len(R) /\ L[i + k] = R[j + k]
                              /\ (n < Left /\ j + n < Len(R) => L[i + n + 1] # R[j + n + 1])
                              /\ n <= Right
                              /\ (n = Left \/ n = Right \/ L[i + n + 1] # R[j + n + 1])
Meets == {<<a, b>> \in (0..(Left - 1)) \X (0..(Right - 1)) : L[i + 1 + a] = R[j + 1 + b]}
Meet == CHOOSE m \in Meets : \A x \in Meets : m[1] < x[1] \/ (m[1] = x[1] /\ m[2] <= x[2])
\* with both sides left: equal lines; or what is before the meeting point, the left part first
Look == IF i < 0 THEN FALSE
        ELSE IF Left = 0 THEN Right > 0 /\ Adv("Add", Right)
        ELSE IF Right = 0 THEN Adv("Remove", Left)
        ELSE IF Run > 0 THEN Adv("Identical", Run)
        ELSE IF Meets = {} THEN Adv("Remove", Left)
        ELSE IF Meet[1] > 0 THEN Adv("Remove", Meet[1])
        ELSE Adv("Add", Meet[2])
FreeStep == i >= 0 /\ \E t \in {"Identical", "Remove", "Add"} : \E n \in 1..MaxLen : Adv(t, n)
Next == Choose \/ IF Free THEN FreeStep ELSE Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtEnd == i = Len(L) /\ j = Len(R)
\* what was reported so far rebuilds what was taken so far
Partial == i >= 0 => /\ Taken(out, {"Identical", "Remove"}) = SubSeq(L, 1, i)
                     /\ Taken(out, {"Identical", "Add"}) = SubSeq(R, 1, j)
Rebuilds == i >= 0 /\ AtEnd => Walk(L, R, <<0, 0>>, out, 1) = ""
NoEmpty == \A k \in 1..Len(out) : out[k][2] # <<>>
Equal == ~Free /\ i >= 0 /\ L = R => \A k \in 1..Len(out) : out[k][1] = "Identical"
\* the relation accepts nothing that does not rebuild: a shortened difference is none
Tight == i >= 0 /\ AtEnd /\ out # <<>> => Walk(L, R, <<0, 0>>, Tail(out), 1) # ""
Stuck == i >= 0 /\ ~AtEnd => ENABLED Next
Ends == <>[](i >= 0 /\ AtEnd)
=============================================================================
