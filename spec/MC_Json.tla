-------------------------------- MODULE MC_Json --------------------------------
(* What is written reads back, whatever the characters: every short text over an      *)
(* alphabet of JSON punctuation, escapes, control and other characters as value, element, *)
(* key and member; texts are never the same for two values.  (Cleanup: numbers are tidied    *)
(* up in the finished text, which reaches into strings.)                                        *)
EXTENDS JSONRead, JSONWrite, TLC

CONSTANTS MaxLen, Alphabet, Cleanup
VARIABLES t, n
Init == t = <<>> /\ n = 0
Next == \/ Len(t) < MaxLen /\ n = 0 /\ \E c \in Alphabet : t' = Append(t, c) /\ n' = n
        \/ n = 0 /\ n' = 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, n>>
Half == <<"f", 0, <<1>>, -1>>
Big == <<"f", 0, <<1>>, 70>>
\* values around the text
H == <<<<"a", <<Str(t), <<"n", 10>>, Half>>>>,
       <<"o", <<<<t, <<"n", -100>>>>>>>>,
       <<"o", <<<<t, <<"a", 1>>>>, <<t \o <<46, 48>>, <<"o", 2>>>>, <<<<98, 98, 98, 98, 98, 98>>, Null>>>>>>,
       <<"a", <<<<"a", 5>>, <<"o", 6>>, Big, Bool(TRUE), <<"a", 1>>>>>>, <<"a", <<>>>>, <<"o", <<>>>>>>
Vals == {Str(t), <<"a", 1>>, <<"o", 2>>, <<"o", 3>>, <<"a", 4>>}
\* ".0" before punctuation or the end is dropped
RECURSIVE Tidy(_, _)
Tidy(x, i) ==
    IF i > Len(x) THEN <<>>
    ELSE IF i + 1 <= Len(x) /\ x[i] = 46 /\ x[i + 1] = 48 /\ (i + 2 > Len(x) \/ x[i + 2] \in {44, 93, 125}) THEN Tidy(x, i + 2)
    ELSE <<x[i]>> \o Tidy(x, i + 1)
Text(v, ind) == LET x == WriteJSON(v, H, ind) IN IF Cleanup THEN Tidy(x, 1) ELSE x
Back(v, ind) == LET r == ReadJSON(Text(v, ind), H) IN r[1] = "ok" /\ Compare(r[2], v, r[3]) = 0
RoundTrip == n = 1 => \A v \in Vals : \A ind \in {0, 1, 3} : Back(v, ind)
OneLine == n = 1 => \A v \in Vals : \A i \in 1..Len(Text(v, 0)) : Text(v, 0)[i] \in 32..126
=============================================================================
