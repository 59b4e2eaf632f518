----------------------------- MODULE MC_Spelling -----------------------------
(* One number type over a host with two.  The host holds a number as int or float, and  *)
(* its own operations tell them apart: an index, a count or a digit count has to be an    *)
(* int, the text of a float has a fraction, an array of the host is searched by equality.  *)
(* The library layer normalises at the border: it turns an integral count into an int      *)
(* before it is used (NormIndex) and drops the fraction of an integral float's text         *)
(* (NormText).  With both, the concrete store always abstracts to the store of the           *)
(* language, which has one number type, whatever representation each result takes             *)
(* (Simulation); without either it does not (checked as a negative configuration).              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vars, Max, Depth, NormIndex, NormText

\* language values: numbers <<"n", k>>, texts <<"s", seq of digits>>, arrays <<"a", seq of values>>, null
\* host values: <<"i", k>> and <<"f", k>> are the two numbers
Null == <<"z">>
Nums == 0..Max
RECURSIVE Abs(_)
Abs(v) == CASE v[1] \in {"i", "f"} -> <<"n", v[2]>>
            [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Abs(v[2][i])]>>
            [] OTHER -> v
IsNumH(v) == v[1] \in {"i", "f"}
IsNumL(v) == v[1] = "n"

\* ---- the host
HText(v) == IF v[1] = "i" THEN <<"s", <<v[2]>>>> ELSE <<"s", <<v[2], "point", 0>>>>
HIndex(v) == IF v[1] = "i" THEN v[2] ELSE -1         \* a float is no index: the operation fails
HEq(v, w) == IF IsNumH(v) /\ IsNumH(w) THEN v[2] = w[2] ELSE v = w
\* ---- the library over the host
CIndex(v) == IF NormIndex /\ IsNumH(v) THEN v[2] ELSE HIndex(v)
CText(v) == IF NormText /\ v[1] = "f" THEN <<"s", <<v[2]>>>> ELSE IF IsNumH(v) THEN HText(v) ELSE v
CGet(a, v) == IF a[1] # "a" \/ ~IsNumH(v) \/ CIndex(v) = -1 \/ CIndex(v) >= Len(a[2]) THEN Null ELSE a[2][CIndex(v) + 1]
CSet(a, v, x) == IF a[1] # "a" \/ ~IsNumH(v) \/ CIndex(v) = -1 \/ CIndex(v) >= Len(a[2]) THEN a ELSE <<"a", [a[2] EXCEPT ![CIndex(v) + 1] = x]>>
CAdd(v, w) == IF IsNumH(v) /\ IsNumH(w) /\ v[2] + w[2] <= Max THEN <<"f", v[2] + w[2]>>     \* an operator makes a float
              ELSE IF v[1] = "s" /\ (IsNumH(w)) /\ Len(v[2]) < 3 THEN <<"s", v[2] \o CText(w)[2]>> ELSE Null
CLen(a) == IF a[1] = "a" THEN <<"i", Len(a[2])>> ELSE <<"i", 0>>                              \* a function makes an int
CFind(a, x) == IF a[1] # "a" THEN <<"i", Max>>
               ELSE LET s == {i \in 1..Len(a[2]) : HEq(a[2][i], x)} IN IF s = {} THEN <<"i", Max>> ELSE <<"i", (CHOOSE i \in s : \A j \in s : i <= j) - 1>>
CRepeat(v) == IF ~IsNumH(v) \/ CIndex(v) = -1 THEN Null ELSE <<"a", [i \in 1..CIndex(v) |-> <<"i", 1>>]>>
CTextOf(v) == CText(v)
\* ---- the language
LGet(a, v) == IF a[1] # "a" \/ ~IsNumL(v) \/ v[2] >= Len(a[2]) THEN Null ELSE a[2][v[2] + 1]
LSet(a, v, x) == IF a[1] # "a" \/ ~IsNumL(v) \/ v[2] >= Len(a[2]) THEN a ELSE <<"a", [a[2] EXCEPT ![v[2] + 1] = x]>>
LText(v) == IF IsNumL(v) THEN <<"s", <<v[2]>>>> ELSE v
LAdd(v, w) == IF IsNumL(v) /\ IsNumL(w) /\ v[2] + w[2] <= Max THEN <<"n", v[2] + w[2]>>
              ELSE IF v[1] = "s" /\ IsNumL(w) /\ Len(v[2]) < 3 THEN <<"s", v[2] \o LText(w)[2]>> ELSE Null
LLen(a) == IF a[1] = "a" THEN <<"n", Len(a[2])>> ELSE <<"n", 0>>
LFind(a, x) == IF a[1] # "a" THEN <<"n", Max>>
               ELSE LET s == {i \in 1..Len(a[2]) : a[2][i] = x} IN IF s = {} THEN <<"n", Max>> ELSE <<"n", (CHOOSE i \in s : \A j \in s : i <= j) - 1>>
LRepeat(v) == IF ~IsNumL(v) THEN Null ELSE <<"a", [i \in 1..v[2] |-> <<"n", 1>>]>>

VARIABLES c,    \* the host's store
          l,    \* the language's store
          n
vars == <<c, l, n>>
Put(x, cv, lv) == c' = [c EXCEPT ![x] = cv] /\ l' = [l EXCEPT ![x] = lv] /\ n' = n + 1
Flat(v) == v[1] # "a"
Init == /\ c \in [Vars -> {<<"i", 1>>, <<"f", 1>>, <<"s", <<>>>>, <<"a", <<<<"i", 0>>, <<"f", 1>>>>>>}]
        /\ l = [x \in Vars |-> Abs(c[x])] /\ n = 0
Next == /\ n < Depth
        /\ \E x, y, z \in Vars :
             \/ Put(x, CGet(c[y], c[z]), LGet(l[y], l[z]))
             \/ Flat(c[x]) /\ c[y][1] = "a" /\ Put(y, CSet(c[y], c[z], c[x]), LSet(l[y], l[z], l[x]))
             \/ Put(x, CAdd(c[y], c[z]), LAdd(l[y], l[z]))
             \/ Put(x, CLen(c[y]), LLen(l[y]))
             \/ Flat(c[z]) /\ Put(x, CFind(c[y], c[z]), LFind(l[y], l[z]))
             \/ Put(x, CRepeat(c[y]), LRepeat(l[y]))
             \/ Put(x, CTextOf(c[y]), LText(l[y]))
Spec == Init /\ [][Next]_vars
Simulation == \A x \in Vars : Abs(c[x]) = l[x]
=============================================================================
