------------------------------- MODULE MC_Labels -------------------------------
(* Every nesting of the block statements, with break and continue in the loops, in a       *)
(* script with functions: labels numbered from one counter that the whole script shares are  *)
(* well formed in every scope, whatever is open around a function.  (Scope "reset": the       *)
(* counter starts again after a function; the labels of open blocks are then used twice.)      *)
EXTENDS Lower

CONSTANTS MaxDepth,  \* levels of nesting
          FnDepth,   \* levels inside of the function
          Counter    \* "shared" or "reset"

Kinds == {"if", "then", "else", "elif1", "elif2", "elif3", "while", "for"}
Exits == {<<>>, <<<<"break">>>>, <<<<"continue">>>>, <<<<"if", <<<<"continue">>>>>>, <<"break">>>>}
Pr == <<"p", 1>>
\* one level around a block; x: the exits, for a loop
Wrap(k, x, inner) ==
    LET b == <<Pr>> \o inner IN
    CASE k = "if" -> <<<<"if", b>>>>
      [] k = "then" -> <<<<"ifelse", b, <<Pr>>>>>>
      [] k = "else" -> <<<<"ifelse", <<Pr>>, b>>>>
      [] k = "elif1" -> <<<<"elif", b, <<Pr>>, <<Pr>>>>>>
      [] k = "elif2" -> <<<<"elif", <<Pr>>, b, <<Pr>>>>>>
      [] k = "elif3" -> <<<<"elif", <<Pr>>, <<Pr>>, b>>>>
      [] k = "while" -> <<<<"while", inner \o x>>>>
      [] OTHER -> <<<<"for", 2, x \o inner>>>>
RECURSIVE Nest(_, _)
Nest(p, hole) == IF p = <<>> THEN hole ELSE Wrap(Head(p)[1], Head(p)[2], Nest(Tail(p), hole))
Levels == {<<k, <<>>>> : k \in Kinds \ {"while", "for"}} \cup {<<k, x>> : k \in {"while", "for"}, x \in Exits}

VARIABLES path, fn
Init == path = <<>> /\ fn = <<>>
Next == \/ Len(path) < MaxDepth /\ fn = <<>> /\ \E l \in Levels : path' = Append(path, l) /\ fn' = fn
        \/ Len(fn) < FnDepth /\ Len(path) <= MaxDepth - 2 /\ \E l \in Levels : fn' = Append(fn, l) /\ path' = path
Spec == Init /\ [][Next]_<<path, fn>>

\* the block with a function in its middle: the statements of the scope around it, the function's, and what follows
NoLoop == <<"none", 0>>
After == <<"if", <<Pr>>>>
LowN(b, n) == Low(b, 1, n, <<NoLoop, NoLoop>>, <<>>)
\* the hole of the path marks where the function is
Mark == <<"p", 99>>
Scopes ==
    IF fn = <<>> THEN LET r == LowN(Nest(path, <<Pr>>), 0) IN <<r[1] \o LowN(<<After>>, r[2])[1]>>
    ELSE \* the levels of the path are open: they have numbers 0..k-1 (elif branches before the hole take more)
         LET outer == LowN(Nest(path, <<Mark>>), 0)
             body == Nest(fn, <<Pr>>)
             inFn == LowN(body, outer[2])
             \* what follows the function in the enclosing block
             next == LowN(<<After>>, IF Counter = "shared" THEN inFn[2] ELSE 0)
             at == CHOOSE i \in 1..Len(outer[1]) : outer[1][i] = Probe(99)
         IN <<SubSeq(outer[1], 1, at) \o next[1] \o SubSeq(outer[1], at + 1, Len(outer[1])), inFn[1]>>
LabelsOk == \A i \in 1..Len(Scopes) : TargetsDefinedOnce(Scopes[i]) /\ LabelsUsed(Scopes[i])
=============================================================================
