------------------------------ MODULE MC_Blocks ------------------------------
(* The line-by-line reading of blocks accepts exactly the sequences the grammar of  *)
(* blocks derives, and finds the first line after which no continuation helps.        *)
(* The lines are the words below; Walk reads them as text.                            *)
EXTENDS Grammar, TLC

CONSTANTS MaxLines
Kinds == {"if", "elif", "else", "endif", "while", "endwhile", "for", "endfor", "function", "endfunction", "break", "x"}
TextOf(k) == CASE k = "if" -> W("if") \o <<32, 97, 58>> [] k = "elif" -> W("elif") \o <<32, 97, 58>> [] k = "else" -> W("else") \o <<58>>
               [] k = "while" -> W("while") \o <<32, 97, 58>> [] k = "for" -> W("for") \o <<32, 97, 32, 105, 110, 32, 98, 58>>
               [] k = "function" -> W("function") \o <<32, 102, 40, 41, 58>> [] k = "x" -> <<97, 40, 41>> [] OTHER -> W(k)
Source(s) == [i \in 1..Len(s) |-> TextOf(s[i])]

\* the grammar: does it derive s[i..j] as a block (loop: inside of a loop, fn: inside of a function)
RECURSIVE Derives(_, _, _, _, _), Branches(_, _, _, _, _)
Derives(s, i, j, loop, fn) ==
    \/ i > j
    \/ s[i] = "x" /\ Derives(s, i + 1, j, loop, fn)
    \/ s[i] = "break" /\ loop /\ Derives(s, i + 1, j, loop, fn)
    \/ s[i] \in {"while", "for"} /\ \E k \in (i + 1)..j : s[k] = (IF s[i] = "while" THEN "endwhile" ELSE "endfor") /\ Derives(s, i + 1, k - 1, TRUE, fn) /\ Derives(s, k + 1, j, loop, fn)
    \/ s[i] = "function" /\ ~fn /\ \E k \in (i + 1)..j : s[k] = "endfunction" /\ Derives(s, i + 1, k - 1, FALSE, TRUE) /\ Derives(s, k + 1, j, loop, fn)
    \/ s[i] = "if" /\ \E k \in (i + 1)..j : s[k] = "endif" /\ Branches(s, i + 1, k - 1, loop, fn) /\ Derives(s, k + 1, j, loop, fn)
\* what is between if and endif
Branches(s, i, j, loop, fn) ==
    \/ Derives(s, i, j, loop, fn)
    \/ \E k \in i..j : s[k] = "else" /\ Derives(s, i, k - 1, loop, fn) /\ Derives(s, k + 1, j, loop, fn)
    \/ \E k \in i..j : s[k] = "elif" /\ Derives(s, i, k - 1, loop, fn) /\ Branches(s, k + 1, j, loop, fn)

\* the lines that close everything that is open, in order
RECURSIVE Closing(_, _)
EndOf(k) == CASE k = "if" -> "endif" [] k = "while" -> "endwhile" [] OTHER -> "endfor"
Closing(st, i) == IF i < 1 THEN <<>>
                  ELSE <<EndOf(st.blocks[i][1])>> \o (IF st.fn # 0 /\ i = st.floor + 1 THEN <<"endfunction">> ELSE <<>>) \o Closing(st, i - 1)
CloseAll(st) == (IF st.fn # 0 /\ Len(st.blocks) = st.floor THEN <<"endfunction">> ELSE <<>>) \o Closing(st, Len(st.blocks))

VARIABLES s, st, bad
vars == <<s, st, bad>>
Init == s = <<>> /\ st = Start /\ bad = FALSE
Next == /\ Len(s) < MaxLines /\ ~bad
        /\ \E k \in Kinds : LET r == Line(TextOf(k), Len(s) + 1, st)
                            IN s' = Append(s, k) /\ IF r[1] = "ok" THEN st' = r[2] /\ bad' = FALSE ELSE st' = st /\ bad' = TRUE
Spec == Init /\ [][Next]_vars
Ok(x) == Walk(<<[i \in 1..Len(x) |-> <<i - 1, TextOf(x[i]), FALSE>>], FALSE, <<0, <<>>, FALSE>>>>, 1, Start, <<>>)[1] = "ok"
\* accepted exactly when derived
Accepted == Ok(s) = Derives(s, 1, Len(s), FALSE, FALSE)
\* a line is only accepted when what came before and it can be completed ...
Viable == ~bad => Derives(s \o CloseAll(st), 1, Len(s) + Len(CloseAll(st)), FALSE, FALSE)
\* ... and only rejected when it cannot, by any few lines
Few == UNION {[1..n -> {"endif", "endwhile", "endfor", "endfunction"}] : n \in 0..2}
Hopeless == bad => \A c \in Few : ~Derives(s \o c, 1, Len(s) + Len(c), FALSE, FALSE)
=============================================================================
