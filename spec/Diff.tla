---------------------------------- MODULE Diff ----------------------------------
(* Line differences.  Two texts (or lists of texts) have lines: the parts between      *)
(* line feeds, a carriage return before a line feed belonging to it.  A difference is a    *)
(* path through both: blocks <<type, lines>>, each taking lines off both sides              *)
(* (Identical), the left (Remove) or the right (Add), until both are taken.                  *)
EXTENDS Regex, SequencesExt

LineEnd == <<13, 63, 10>>
LinesOf(t) == RxSplit(LineEnd, t)
AllLines(ts) == FoldLeft(LAMBDA acc, t : acc \o LinesOf(t), <<>>, ts)

\* one block taken at <<i, j>> (lines taken so far): the new position, or <<>> when the block is not possible there
TakeBlock(L, R, p, b) ==
    LET n == Len(b[2])
        left == p[1] + n <= Len(L) /\ \A k \in 1..n : L[p[1] + k] = b[2][k]
        right == p[2] + n <= Len(R) /\ \A k \in 1..n : R[p[2] + k] = b[2][k]
    IN IF n = 0 THEN <<>>
       ELSE CASE b[1] = "Identical" -> IF left /\ right THEN <<p[1] + n, p[2] + n>> ELSE <<>>
              [] b[1] = "Remove" -> IF left THEN <<p[1] + n, p[2]>> ELSE <<>>
              [] b[1] = "Add" -> IF right THEN <<p[1], p[2] + n>> ELSE <<>>
              [] OTHER -> <<>>
RECURSIVE Walk(_, _, _, _, _)
Walk(L, R, p, bs, k) == \* "" or the clause that fails
    IF k > Len(bs) THEN (IF p[1] # Len(L) THEN "left-lines-missing" ELSE IF p[2] # Len(R) THEN "right-lines-missing" ELSE "")
    ELSE LET q == TakeBlock(L, R, p, bs[k])
         IN IF bs[k][2] = <<>> THEN "empty-block" ELSE IF q = <<>> THEN "block:" \o bs[k][1] ELSE Walk(L, R, q, bs, k + 1)
Taken(bs, types) == FoldLeft(LAMBDA acc, b : IF b[1] \in types THEN acc \o b[2] ELSE acc, <<>>, bs)
=============================================================================
