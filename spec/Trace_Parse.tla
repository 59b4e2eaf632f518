------------------------------ MODULE Trace_Parse ------------------------------
(* Parsed scripts of the implementation.  A record:                                  *)
(*   parts   the text in pieces;  start  the number of the first line                 *)
(*   out     <<"ok", items>>, <<"err", number, line, column, error, message>>, or      *)
(*           <<"other", exception>>;  a number or column that is none is -1            *)
(*   shifted the outcomes with lines put before: <<how many, items of them, out>>      *)
(*   emb     <<prefix, column>>: the text is the prefix, an expression that is rejected *)
(*           at the column, and more, in one line;  or <<>>                            *)
(*   loose   the text is not read                                                      *)
EXTENDS Grammar, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)
VARIABLES ci

Reserved == <<95, 95, 98, 97, 114, 101, 83, 99, 114, 105, 112, 116>>
RECURSIVE Within(_, _)
Within(t, s) ==
    IF t = s THEN TRUE
    ELSE CASE t[1] = "bin" -> Within(t[3], s) \/ Within(t[4], s)
           [] t[1] = "un" -> Within(t[3], s)
           [] t[1] = "grp" -> Within(t[2], s)
           [] t[1] = "call" -> \E i \in 1..Len(t[3]) : Within(t[3][i], s)
           [] OTHER -> FALSE
\* every line is accounted for: the items of the text occur in the model in their order, between them only what
\* the lowering of blocks adds
UserLabels(E) == {E[i][2] : i \in {j \in 1..Len(E) : E[j][1] \in {"label", "jump", "jumpif"}}}
ForNames(E) == UNION {{E[i][2], E[i][3]} : i \in {j \in 1..Len(E) : E[j][1] = "for"}}
Assigned(M, n) == n = <<>> \/ \E i \in 1..Len(M) : M[i][1] = "expr" /\ M[i][2] = n
RECURSIVE Accounts(_, _, _, _, _, _)
Accounts(E, M, i, j, ul, fn) ==
    IF j > Len(M) THEN i > Len(E)
    ELSE LET m == M[j]
             emitted == \/ m[1] \in {"label", "jump", "jumpif"} /\ m[2] \notin ul
                        \/ m[1] = "expr" /\ m[2] # <<>> /\ (StartsWith(m[2], Reserved) \/ m[2] \in fn)
             hit == i <= Len(E) /\ LET e == E[i] IN
                        CASE e[1] = "cond" -> m[1] = "jumpif" /\ m[2] \notin ul /\ Within(m[3], e[2])
                          [] e[1] = "for" -> m[1] = "expr" /\ StartsWith(m[2], Reserved) /\ Within(m[3], e[4]) /\ Assigned(M, e[2]) /\ Assigned(M, e[3])
                          [] e[1] = "leave" -> m[1] = "jump" /\ m[2] \notin ul
                          [] OTHER -> m = e
         IN IF hit THEN Accounts(E, M, i + 1, j + 1, ul, fn) ELSE emitted /\ Accounts(E, M, i, j + 1, ul, fn)
AccountsFor(E, M) == Accounts(E, M, 1, 1, UserLabels(E), ForNames(E))

\* the message: in its last two lines a caret is under the character at the column
CaretOk(msg, line, col) ==
    LET ls == SplitAt(msg, <<10>>)
        n == Len(ls)
        \* the line itself has no line feed
        shown == ls[n - 2] caret == ls[n - 1]
        k == Len(caret)
        fits(p, s) == LET w == Len(shown) - p - s        \* what is shown of the line
                          a == col - (k - p) + 1         \* where it begins
                      IN /\ w >= 0 /\ a >= 1 /\ a + w - 1 <= Len(line)
                         /\ SubSeq(shown, p + 1, p + w) = SubSeq(line, a, a + w - 1)
                         /\ k > p /\ k <= p + w + 1
                         /\ (p = 4 => SubSeq(shown, 1, 4) = <<46, 46, 46, 32>>)
                         /\ (s = 4 => From(shown, Len(shown) - 3) = <<32, 46, 46, 46>>)
    IN Occurs(line, 1, 10) \/
       /\ n >= 4 /\ ls[n] = <<>> /\ k >= 1 /\ caret = Repeat(<<32>>, k - 1) \o <<94>>
       /\ \E p \in {0, 4}, s \in {0, 4} : p + s <= Len(shown) /\ fits(p, s)
\* the message names the error and the line
HeadOk(o) == /\ Find(o[6], o[5], 1) # 0 /\ o[5] # <<>>
             /\ Find(o[6], IntText(o[2]), 1) # 0

ErrOk(R, o, r, lg) ==
    LET line(k) == IF k <= Len(lg[1]) THEN lg[1][k] ELSE lg[3]
        ks == {k \in r[2] : o[2] = R.start + line(k)[1]}
        k == CHOOSE k \in ks : TRUE
        t == line(k)[2]
        same == o[3] = t
        hi == IF r[4] = 0 THEN Len(o[3]) + 1 ELSE r[4]
    IN IF ks = {} THEN "line-number"
       ELSE IF ~same /\ ~(line(k)[3] /\ Squeeze(o[3]) = Squeeze(t)) THEN "line-text"
       ELSE IF o[4] < 1 \/ o[4] > Len(o[3]) + 1 THEN "column-outside"
       ELSE IF same /\ (o[4] < r[3] \/ o[4] > hi) THEN "column"
       ELSE ""
ShiftOk(R, s) ==
    LET a == R.out b == s[3]
    IN IF a[1] # b[1] THEN FALSE
       ELSE CASE a[1] = "err" -> b[2] = a[2] + s[1] /\ b[3] = a[3] /\ b[4] = a[4] /\ b[5] = a[5]
              [] a[1] = "ok" -> b[2] = s[2] \o a[2]
              [] OTHER -> TRUE
Clause(R) ==
    LET o == R.out IN
    IF o[1] = "other" THEN "host-exception"
    ELSE IF \E i \in 1..Len(R.shifted) : R.shifted[i][3][1] = "other" THEN "host-exception-shifted"
    ELSE IF o[1] = "err" /\ (o[2] < 0 \/ o[4] < 1 \/ o[4] > Len(o[3]) + 1) THEN "no-position"
    ELSE IF o[1] = "err" /\ ~HeadOk(o) THEN "message"
    ELSE IF o[1] = "err" /\ ~CaretOk(o[6], o[3], o[4]) THEN "caret"
    ELSE IF \E i \in 1..Len(R.shifted) : ~ShiftOk(R, R.shifted[i]) THEN "shifted"
    ELSE IF R.emb # <<>> /\ o[1] = "err" /\ o[4] # Len(R.emb[1]) + R.emb[2] THEN "embedded-column"
    ELSE IF R.loose THEN ""
    ELSE LET lg == Logical(R.parts) r == Walk(lg, 1, Start, <<>>)
         IN CASE r[1] = "open" -> ""
              [] r[1] = "ok" -> (IF o[1] # "ok" THEN "rejected" ELSE IF AccountsFor(r[2], o[2]) THEN "" ELSE "not-accounted-for")
              [] OTHER -> (IF o[1] = "ok" THEN "accepted" ELSE ErrOk(R, o, r, lg))
Kind(R) == IF R.loose THEN "loose" ELSE Script(R.parts)[1]
Init == ci = 1
Next == ci <= NT /\ PrintT(<<"VERDICT", ci, Clause(T[ci]), Kind(T[ci])>>) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
