------------------------------- MODULE Grammar -------------------------------
(* The concrete syntax: expressions, logical lines, statements, blocks.            *)
(*                                                                                 *)
(* Texts are sequences of code points, positions count from 1.  Trees are          *)
(*   <<"num", n>> <<"str", text>> <<"var", name>> <<"call", name, args>>           *)
(*   <<"bin", op, left, right>> <<"un", op, e>> <<"grp", e>>                       *)
(* Expr gives <<"ok", tree>>, <<"err", lo, hi>> - no expression, the offending      *)
(* source is between the end of what can be read (or the open parenthesis that is   *)
(* not closed) and the first token that cannot continue it - or <<"open">>, where   *)
(* nothing is decided (names with characters outside ASCII, ambiguous escapes).     *)
EXTENDS F64

RECURSIVE Sk(_, _), NameEnd(_, _)
\* the first position that is no space
Sk(t, i) == IF i <= Len(t) /\ IsSpace(t[i]) THEN Sk(t, i + 1) ELSE i
\* the position after a name that begins at i (i itself: there is none)
NameTail(t, i) == IF i <= Len(t) /\ IsIdChar(t[i]) THEN NameEnd(t, i + 1) ELSE i
NameEnd(t, i) == NameTail(t, i)
NameAt(t, i) == IF i <= Len(t) /\ IsIdStart(t[i]) THEN NameEnd(t, i + 1) ELSE i
At1(t, i, c) == i <= Len(t) /\ t[i] = c
Foreign(t, i) == i <= Len(t) /\ t[i] > 127 /\ ~IsSpace(t[i])

\* ---- tokens
\* the position of the closing quote q, escapes are \\ and \q (0: there is none)
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(t, k, q) ==
    IF k > Len(t) THEN 0
    ELSE IF t[k] = 92 /\ k < Len(t) /\ t[k + 1] \in {92, q} THEN QuoteEnd(t, k + 2, q)
    ELSE IF t[k] = q THEN k ELSE QuoteEnd(t, k + 1, q)
RECURSIVE Unescape(_, _, _, _)
Unescape(t, k, q, acc) ==
    IF k > Len(t) THEN acc
    ELSE IF t[k] = 92 /\ k < Len(t) /\ t[k + 1] \in {92, q} THEN Unescape(t, k + 2, q, Append(acc, t[k + 1]))
    ELSE Unescape(t, k + 1, q, Append(acc, t[k]))
Occurs(t, i, c) == \E k \in i..Len(t) : t[k] = c

\* a binary operator: <<operator, level, position after it>>, level 0: none
NoOp == <<"", 0, 0>>
OpAt(t, i) ==
    LET j == Sk(t, i)
        c == IF j <= Len(t) THEN t[j] ELSE 0
        d == IF j < Len(t) THEN t[j + 1] ELSE 0
    IN CASE c = 42 /\ d = 42 -> <<"**", 7, j + 2>>
         [] c = 60 /\ d = 61 -> <<"<=", 4, j + 2>>
         [] c = 62 /\ d = 61 -> <<">=", 4, j + 2>>
         [] c = 61 /\ d = 61 -> <<"==", 3, j + 2>>
         [] c = 33 /\ d = 61 -> <<"!=", 3, j + 2>>
         [] c = 38 /\ d = 38 -> <<"&&", 2, j + 2>>
         [] c = 124 /\ d = 124 -> <<"||", 1, j + 2>>
         [] c = 42 /\ d # 42 -> <<"*", 6, j + 1>>
         [] c = 47 -> <<"/", 6, j + 1>>
         [] c = 37 -> <<"%", 6, j + 1>>
         [] c = 43 -> <<"+", 5, j + 1>>
         [] c = 45 -> <<"-", 5, j + 1>>
         [] c = 60 /\ d # 61 -> <<"<", 4, j + 1>>
         [] c = 62 /\ d # 61 -> <<">", 4, j + 1>>
         [] OTHER -> NoOp
\* the position after an unsigned number that begins at i
NumEnd(t, i) ==
    LET i1 == DigitsEnd(t, i)
        i2 == IF At1(t, i1, 46) THEN DigitsEnd(t, i1 + 1) ELSE i1
        exp == At1(t, i2, 101) /\ (At1(t, i2 + 1, 43) \/ At1(t, i2 + 1, 45)) /\ i2 + 2 <= Len(t) /\ IsDigit(t[i2 + 2])
    IN IF exp THEN DigitsEnd(t, i2 + 2) ELSE i2

\* ---- expressions: <<"ok", tree, position after it>>, <<"err", lo, hi>>, <<"open">>
RECURSIVE EUnary(_, _), EBin(_, _), EClimb(_, _, _, _), EArgs(_, _, _, _)
EUnary(t, i) ==
    LET j == Sk(t, i)
        c == IF j <= Len(t) THEN t[j] ELSE 0
        bad == <<"err", i, j>>
    IN IF j > Len(t) THEN bad
       ELSE IF c = 40 THEN
            LET r == EBin(t, j + 1)
                k == IF r[1] = "ok" THEN Sk(t, r[3]) ELSE 0
            IN IF r[1] # "ok" THEN r ELSE IF At1(t, k, 41) THEN <<"ok", <<"grp", r[2]>>, k + 1>> ELSE <<"err", i, k>>
       ELSE IF c \in {33, 45} THEN
            LET r == EUnary(t, j + 1) IN IF r[1] # "ok" THEN r ELSE <<"ok", <<"un", IF c = 33 THEN "!" ELSE "-", r[2]>>, r[3]>>
       ELSE IF IsIdStart(c) THEN
            LET e == NameAt(t, j)
                name == SubSeq(t, j, e - 1)
                k == Sk(t, e)
            IN IF Foreign(t, e) THEN <<"open">> ELSE IF At1(t, k, 40) THEN EArgs(t, k + 1, name, <<>>) ELSE <<"ok", <<"var", name>>, e>>
       ELSE IF IsDigit(c) \/ (c = 43 /\ j < Len(t) /\ IsDigit(t[j + 1])) THEN
            LET e == NumEnd(t, IF c = 43 THEN j + 1 ELSE j)
                v == ReadNumber(SubSeq(t, j, e - 1))
            IN IF Foreign(t, e) \/ (At1(t, e, 101) /\ Foreign(t, e + 2)) \/ v[1] = "inf" THEN <<"open">> ELSE <<"ok", <<"num", v>>, e>>
       ELSE IF c \in {39, 34} THEN
            LET e == QuoteEnd(t, j + 1, c)
            IN IF e = 0 THEN (IF Occurs(t, j + 1, c) THEN <<"open">> ELSE bad)
               ELSE <<"ok", <<"str", Unescape(SubSeq(t, j + 1, e - 1), 1, c, <<>>)>>, e + 1>>
       ELSE IF c = 91 THEN
            LET s == Sk(t, j + 1)
                e == QuoteEnd(t, s, 93)
            IN IF e = 0 THEN (IF Occurs(t, j + 1, 93) THEN <<"open">> ELSE bad)
               ELSE IF e = j + 1 THEN bad
               ELSE IF e = s \/ IsSpace(t[e - 1]) THEN <<"open">>
               ELSE <<"ok", <<"var", Unescape(SubSeq(t, s, e - 1), 1, 93, <<>>)>>, e + 1>>
       ELSE IF Foreign(t, j) \/ (c = 43 /\ Foreign(t, j + 1)) THEN <<"open">>
       ELSE bad
\* an operand followed by any operators of level min and above; those of one level associate to the left
EClimb(t, left, i, min) ==
    LET o == OpAt(t, i)
    IN IF o[2] < min \/ o[2] = 0 THEN <<"ok", left, i>>
       ELSE LET u == EUnary(t, o[3])
            IN IF u[1] # "ok" THEN u
               ELSE LET r == EClimb(t, u[2], u[3], o[2] + 1)
                    IN IF r[1] # "ok" THEN r ELSE EClimb(t, <<"bin", o[1], left, r[2]>>, r[3], min)
EBin(t, i) == LET u == EUnary(t, i) IN IF u[1] # "ok" THEN u ELSE EClimb(t, u[2], u[3], 1)
EArgs(t, i, name, args) ==
    LET k == Sk(t, i)
    IN IF At1(t, k, 41) THEN <<"ok", <<"call", name, args>>, k + 1>>
       ELSE IF args # <<>> /\ ~At1(t, k, 44) THEN <<"err", i, k>>
       ELSE LET r == EBin(t, IF args # <<>> THEN k + 1 ELSE i)
            IN IF r[1] # "ok" THEN r ELSE EArgs(t, r[3], name, Append(args, r[2]))
Expr(t) ==
    LET r == EBin(t, 1)
        k == IF r[1] = "ok" THEN Sk(t, r[3]) ELSE 0
    IN IF r[1] # "ok" THEN r ELSE IF k <= Len(t) THEN (IF Foreign(t, k) /\ k = r[3] THEN <<"open">> ELSE <<"err", r[3], k>>) ELSE <<"ok", r[2]>>
\* the expression between positions a and b of a line
ExprIn(t, a, b) == LET r == Expr(SubSeq(t, a, b)) IN IF r[1] = "err" THEN <<"err", r[2] + a - 1, r[3] + a - 1>> ELSE r

\* ---- logical lines
Cr == 13
Lf == 10
\* the physical lines of a text: they end with LF or CR LF
RECURSIVE PhysFrom(_, _, _)
PhysFrom(t, i, acc) ==
    LET k == Find(t, <<Lf>>, i)
    IN IF k = 0 THEN Append(acc, From(t, i))
       ELSE PhysFrom(t, k + 1, Append(acc, SubSeq(t, i, IF k > i /\ t[k - 1] = Cr THEN k - 2 ELSE k - 1)))
Physical(parts) == FoldLeft(LAMBDA acc, p : acc \o PhysFrom(p, 1, <<>>), <<>>, parts)
IsComment(l) == LET i == Sk(l, 1) IN i > Len(l) \/ l[i] = 35
\* a line continues when it ends with a backslash and spaces
Continues(l) == LET s == RStrip(l) IN s # <<>> /\ s[Len(s)] = 92
Uncontinued(l) == LET s == RStrip(l) IN SubSeq(s, 1, Len(s) - 1)
\* <<position (from 0) of the first physical line, text, joined from several lines>>; the last one may be cut off
RECURSIVE LogicalFrom(_, _, _, _)
LogicalFrom(ls, i, pending, acc) == \* pending: <<position, parts>>, parts empty: none
    IF i > Len(ls) THEN <<acc, pending[2] # <<>>, IF pending[2] # <<>> THEN <<pending[1], JoinWith(pending[2], <<32>>), TRUE>> ELSE <<0, <<>>, FALSE>>>>
    ELSE IF IsComment(ls[i]) THEN LogicalFrom(ls, i + 1, pending, acc)
    ELSE LET more == pending[2] # <<>>
             at == IF more THEN pending[1] ELSE i - 1
         IN IF Continues(ls[i]) THEN LogicalFrom(ls, i + 1, <<at, Append(pending[2], IF more THEN Strip(Uncontinued(ls[i])) ELSE RStrip(Uncontinued(ls[i])))>>, acc)
            ELSE LogicalFrom(ls, i + 1, <<0, <<>>>>,
                             Append(acc, IF more THEN <<at, JoinWith(Append(pending[2], Strip(ls[i])), <<32>>), TRUE>> ELSE <<at, ls[i], FALSE>>))
\* <<lines, the last one is cut off, that line>>
Logical(parts) == LogicalFrom(Physical(parts), 1, <<0, <<>>>>, <<>>)

\* ---- statements
W(s) == CASE s = "async" -> <<97, 115, 121, 110, 99>> [] s = "function" -> <<102, 117, 110, 99, 116, 105, 111, 110>>
          [] s = "endfunction" -> <<101, 110, 100, 102, 117, 110, 99, 116, 105, 111, 110>> [] s = "if" -> <<105, 102>>
          [] s = "elif" -> <<101, 108, 105, 102>> [] s = "else" -> <<101, 108, 115, 101>> [] s = "endif" -> <<101, 110, 100, 105, 102>>
          [] s = "while" -> <<119, 104, 105, 108, 101>> [] s = "endwhile" -> <<101, 110, 100, 119, 104, 105, 108, 101>>
          [] s = "for" -> <<102, 111, 114>> [] s = "endfor" -> <<101, 110, 100, 102, 111, 114>> [] s = "in" -> <<105, 110>>
          [] s = "break" -> <<98, 114, 101, 97, 107>> [] s = "continue" -> <<99, 111, 110, 116, 105, 110, 117, 101>>
          [] s = "jump" -> <<106, 117, 109, 112>> [] s = "jumpif" -> <<106, 117, 109, 112, 105, 102>>
          [] s = "return" -> <<114, 101, 116, 117, 114, 110>> [] s = "include" -> <<105, 110, 99, 108, 117, 100, 101>>
          [] OTHER -> <<46, 46, 46>>
\* the line begins (at i) with a word and a space: the position after the spaces (0: it does not)
Word(l, i, w) == LET e == i + Len(W(w)) IN IF StartsAt(l, W(w), i) /\ e <= Len(l) /\ IsSpace(l[e]) THEN Sk(l, e) ELSE 0
Only(l, w) == Strip(l) = W(w)

\* the arguments of a function definition, from the position after "(": <<args, last argument is an array, position after ")">>
RECURSIVE ArgNames(_, _, _)
NoArgs == <<<<>>, FALSE, 0>>
ArgsEnd(l, i, acc) ==
    LET k == Sk(l, i)
        dots == StartsAt(l, W("..."), k)
        e == IF dots THEN Sk(l, k + 3) ELSE k
    IN IF At1(l, e, 41) THEN <<acc, dots, e + 1>> ELSE NoArgs
ArgNames(l, i, acc) ==
    LET e == NameAt(l, i) k == Sk(l, e)
    IN IF e = i THEN NoArgs
       ELSE IF At1(l, k, 44) THEN ArgNames(l, Sk(l, k + 1), Append(acc, SubSeq(l, i, e - 1)))
       ELSE ArgsEnd(l, e, Append(acc, SubSeq(l, i, e - 1)))
\* a function definition: <<name, args, last, async>>, or <<>>
FunctionLine(l) ==
    LET i0 == Sk(l, 1)
        i1 == Word(l, i0, "async")
        async == i1 # 0
        i2 == Word(l, IF async THEN i1 ELSE i0, "function")
        e == IF i2 = 0 THEN 0 ELSE NameAt(l, i2)
        k == IF i2 = 0 THEN 0 ELSE Sk(l, e)
        a0 == IF i2 # 0 /\ e # i2 /\ At1(l, k, 40) THEN Sk(l, k + 1) ELSE 0
        as == IF a0 = 0 THEN NoArgs ELSE IF NameAt(l, a0) = a0 THEN ArgsEnd(l, a0, <<>>) ELSE ArgNames(l, a0, <<>>)
        c == IF as[3] = 0 THEN 0 ELSE Sk(l, as[3])
    IN IF c # 0 /\ At1(l, c, 58) /\ Sk(l, c + 1) > Len(l) THEN <<SubSeq(l, i2, e - 1), as[1], as[2], async>> ELSE <<>>
\* the name at the end of a line that follows a ")" and spaces: <<position of ")", name>>, or <<0, <<>>>>
JumpTail(l) ==
    LET z == Len(RStrip(l))
        s == IF \E k \in 1..z : ~IsIdChar(l[k]) THEN (CHOOSE k \in 1..z : ~IsIdChar(l[k]) /\ \A m \in (k + 1)..z : IsIdChar(l[m])) + 1 ELSE 1
        p == Len(RStrip(SubSeq(l, 1, s - 1)))
    IN IF s > 1 /\ s <= z /\ IsIdStart(l[s]) /\ IsSpace(l[s - 1]) /\ p > 0 /\ l[p] = 41 THEN <<p, SubSeq(l, s, z)>> ELSE <<0, <<>>>>

\* a line: its kind and parts, expressions as positions
LineKind(l) ==
    LET i0 == Sk(l, 1)
        z == Len(RStrip(l))
        n1 == NameAt(l, i0)
        k1 == Sk(l, n1)
        name == SubSeq(l, i0, n1 - 1)
        colon == z > 0 /\ l[z] = 58
        head(w) == IF colon THEN Word(l, i0, w) ELSE 0
        block(w) == LET a == head(w) IN IF a > z - 1 THEN <<"open">> ELSE <<w, a, z - 1>>
        fn == FunctionLine(l)
        f1 == head("for")
        f2 == IF f1 = 0 THEN 0 ELSE NameAt(l, f1)
        fc == IF f1 = 0 THEN 0 ELSE Sk(l, f2)
        comma == f1 # 0 /\ At1(l, fc, 44)
        g1 == IF comma THEN Sk(l, fc + 1) ELSE 0
        g2 == IF comma THEN NameAt(l, g1) ELSE f2
        inAt == IF f1 # 0 /\ f2 # f1 /\ g2 # g1 /\ Sk(l, g2) > g2 THEN Word(l, Sk(l, g2), "in") ELSE 0
        ji == IF StartsAt(l, W("jumpif"), i0) THEN Sk(l, i0 + 6) ELSE 0
        jt == JumpTail(l)
        j1 == Word(l, i0, "jump")
        r1 == Word(l, i0, "return")
        c1 == Word(l, i0, "include")
    IN CASE Foreign(l, n1) /\ n1 > i0 -> <<"open">>
         [] n1 > i0 /\ At1(l, k1, 61) /\ Sk(l, k1 + 1) > Len(l) -> <<"incomplete", n1>>
         [] n1 > i0 /\ At1(l, k1, 61) -> <<"expr", name, k1 + 1, Len(l)>>
         [] StartsAt(l, W("async") \o W("function"), i0) -> <<"open">>
         [] fn # <<>> -> (IF fn[3] /\ fn[2] = <<>> THEN <<"open">> ELSE <<"function">> \o fn)
         [] Only(l, "endfunction") -> <<"endfunction">>
         [] head("if") # 0 -> block("if")
         [] head("elif") # 0 -> block("elif")
         [] name = W("else") /\ At1(l, k1, 58) /\ z = k1 -> <<"else">>
         [] Only(l, "endif") -> <<"endif">>
         [] head("while") # 0 -> block("while")
         [] Only(l, "endwhile") -> <<"endwhile">>
         [] inAt # 0 -> (IF inAt > z - 1 THEN <<"open">> ELSE <<"for", SubSeq(l, f1, f2 - 1), IF comma THEN SubSeq(l, g1, g2 - 1) ELSE <<>>, inAt, z - 1>>)
         [] Only(l, "endfor") -> <<"endfor">>
         [] Only(l, "break") -> <<"break">>
         [] Only(l, "continue") -> <<"continue">>
         [] n1 > i0 /\ At1(l, k1, 58) /\ z = k1 -> <<"label", name>>
         [] ji # 0 /\ At1(l, ji, 40) /\ jt[1] > ji + 1 -> <<"jumpif", jt[2], ji + 1, jt[1] - 1>>
         [] j1 # 0 /\ NameAt(l, j1) > j1 /\ Sk(l, NameAt(l, j1)) > Len(l) -> <<"jump", SubSeq(l, j1, NameAt(l, j1) - 1)>>
         [] Only(l, "return") -> <<"return">>
         [] r1 # 0 -> <<"returne", r1, z>>
         [] c1 # 0 /\ At1(l, c1, 39) /\ z > c1 /\ l[z] = 39 /\ (\A k \in (c1 + 1)..(z - 1) : l[k] = 39 => l[k - 1] = 92) ->
              (IF l[z - 1] = 92 THEN <<"open">> ELSE <<"include", FALSE, Unescape(SubSeq(l, c1 + 1, z - 1), 1, 39, <<>>)>>)
         [] c1 # 0 /\ At1(l, c1, 60) /\ z > c1 /\ l[z] = 62 /\ (\A k \in (c1 + 1)..(z - 1) : l[k] # 62) -> <<"include", TRUE, SubSeq(l, c1 + 1, z - 1)>>
         [] OTHER -> <<"expr", <<>>, 1, Len(l)>>

\* ---- scripts
\* What a script says, line by line (items), or where it is wrong:
\*   <<"ok", items>>   <<"err", lines, lo, hi>>: one of these logical lines, a column between lo and hi   <<"open">>
\* items: <<"expr", name, tree>> <<"label", n>> <<"jump", n>> <<"jumpif", n, tree>> <<"return">> <<"returne", tree>>
\*        <<"include", system, url>> <<"function", name, args, last, async>> <<"endfunction">>
\*        <<"cond", tree>> <<"for", value, index, tree>> <<"leave">> (break, continue, the end of a branch before elif or else)
\* st: fn (the line of the open function), blocks <<kind, has an else, line>>, floor (blocks open outside of the function)
Innermost(st, kinds) == Len(st.blocks) > st.floor /\ st.blocks[Len(st.blocks)][1] \in kinds
InLoop(st) == \E i \in (st.floor + 1)..Len(st.blocks) : st.blocks[i][1] # "if"
Popped(st) == [st EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
WithExpr(l, k, a, b, f(_)) ==
    LET r == ExprIn(l, a, b) IN CASE r[1] = "ok" -> <<"ok", f(r[2])>> [] r[1] = "err" -> <<"err", {k}, r[2], r[3]>> [] OTHER -> <<"open">>
\* one line: <<"ok", state, items>>, <<"err", lines, lo, hi>>, <<"open">>
Line(l, k, st) ==
    LET q == LineKind(l) t == q[1]
        wrong == <<"err", {k}, 1, Len(l) + 1>>
        plain(item) == <<"ok", st, <<item>>>>
        expr(a, b, s2, f(_)) == LET r == WithExpr(l, k, a, b, f) IN IF r[1] = "ok" THEN <<"ok", s2, <<r[2]>>>> ELSE r
        push(kind) == [st EXCEPT !.blocks = Append(@, <<kind, FALSE, k>>)]
        top == st.blocks[Len(st.blocks)]
        withElse == [st EXCEPT !.blocks[Len(st.blocks)] = <<"if", TRUE, top[3]>>]
        cond(e) == <<"cond", e>>
    IN CASE t = "open" -> <<"open">>
         [] t = "incomplete" -> <<"err", {k}, q[2], Len(l) + 1>>
         [] t = "expr" -> expr(q[3], q[4], st, LAMBDA e : <<"expr", q[2], e>>)
         [] t = "function" -> (IF st.fn # 0 THEN wrong ELSE <<"ok", [st EXCEPT !.fn = k, !.floor = Len(st.blocks)], <<q>>>>)
         [] t = "endfunction" -> (IF st.fn = 0 THEN wrong
                                  ELSE IF Len(st.blocks) > st.floor
                                       THEN <<"err", {k} \cup {st.blocks[i][3] : i \in (st.floor + 1)..Len(st.blocks)}, 1, 0>>
                                  ELSE <<"ok", [st EXCEPT !.fn = 0, !.floor = 0], <<q>>>>)
         [] t = "if" -> expr(q[2], q[3], push("if"), cond)
         [] t = "elif" -> (IF ~Innermost(st, {"if"}) \/ top[2] THEN wrong
                           ELSE LET r == expr(q[2], q[3], st, cond) IN IF r[1] = "ok" THEN <<"ok", st, <<<<"leave">>>> \o r[3]>> ELSE r)
         [] t = "else" -> (IF ~Innermost(st, {"if"}) \/ top[2] THEN wrong ELSE <<"ok", withElse, <<<<"leave">>>>>>)
         [] t = "endif" -> (IF ~Innermost(st, {"if"}) THEN wrong ELSE <<"ok", Popped(st), <<>>>>)
         [] t = "while" -> expr(q[2], q[3], push("while"), cond)
         [] t = "endwhile" -> (IF ~Innermost(st, {"while"}) THEN wrong ELSE <<"ok", Popped(st), <<>>>>)
         [] t = "for" -> expr(q[4], q[5], push("for"), LAMBDA e : <<"for", q[2], q[3], e>>)
         [] t = "endfor" -> (IF ~Innermost(st, {"for"}) THEN wrong ELSE <<"ok", Popped(st), <<>>>>)
         [] t \in {"break", "continue"} -> (IF ~InLoop(st) THEN wrong ELSE plain(<<"leave">>))
         [] t = "jumpif" -> expr(q[3], q[4], st, LAMBDA e : <<"jumpif", q[2], e>>)
         [] t = "returne" -> expr(q[2], q[3], st, LAMBDA e : <<"returne", e>>)
         [] OTHER -> plain(q)
RECURSIVE Walk(_, _, _, _)
Walk(lg, k, st, acc) ==
    LET lines == lg[1]
    IN IF k > Len(lines)
       THEN LET opened == {st.blocks[i][3] : i \in 1..Len(st.blocks)} \cup (IF st.fn # 0 THEN {st.fn} ELSE {})
                cut == IF lg[2] THEN {k} ELSE {}
            IN IF lg[2] /\ Strip(lg[3][2]) = <<>> /\ opened = {} THEN <<"open">>
               ELSE IF opened \cup cut # {} THEN <<"err", opened \cup cut, 1, 0>> ELSE <<"ok", acc>>
       ELSE LET r == Line(lines[k][2], k, st)
            IN IF r[1] = "ok" THEN Walk(lg, k + 1, r[2], acc \o r[3]) ELSE r
Start == [fn |-> 0, blocks |-> <<>>, floor |-> 0]
Script(parts) == Walk(Logical(parts), 1, Start, <<>>)

\* ---- readings
\* every maximal run of spaces outside of quoted text as one space
RECURSIVE SqueezeFrom(_, _, _, _)
SqueezeFrom(l, i, q, acc) ==
    IF i > Len(l) THEN acc
    ELSE IF q # 0 THEN (IF l[i] = 92 /\ i < Len(l) THEN SqueezeFrom(l, i + 2, q, acc \o SubSeq(l, i, i + 1)) ELSE SqueezeFrom(l, i + 1, IF l[i] = q THEN 0 ELSE q, Append(acc, l[i])))
    ELSE IF IsSpace(l[i]) THEN SqueezeFrom(l, Sk(l, i), 0, Append(acc, 32))
    ELSE SqueezeFrom(l, i + 1, IF l[i] \in {39, 34} THEN l[i] ELSE IF l[i] = 91 THEN 93 ELSE 0, Append(acc, l[i]))
Squeeze(l) == SqueezeFrom(Strip(l), 1, 0, <<>>)

\* every line with its parts, as trees; <<"no">> where a line is no statement or nothing is decided
ReadLine(l) ==
    LET q == LineKind(l) t == q[1]
        e(a, b) == ExprIn(l, a, b)
        with(r, x) == IF r[1] = "ok" THEN x ELSE <<"no">>
    IN CASE t \in {"open", "incomplete"} -> <<"no">>
         [] t = "expr" -> LET r == e(q[3], q[4]) IN with(r, <<"expr", q[2], r[2]>>)
         [] t \in {"if", "elif", "while", "returne"} -> LET r == e(q[2], q[3]) IN with(r, <<t, r[2]>>)
         [] t = "for" -> LET r == e(q[4], q[5]) IN with(r, <<"for", q[2], q[3], r[2]>>)
         [] t = "jumpif" -> LET r == e(q[3], q[4]) IN with(r, <<"jumpif", q[2], r[2]>>)
         [] OTHER -> q
Reading(parts) ==
    LET lg == Logical(parts)
        rs == [i \in 1..Len(lg[1]) |-> ReadLine(lg[1][i][2])]
    IN IF lg[2] \/ \E i \in 1..Len(rs) : rs[i] = <<"no">> THEN <<"no">> ELSE <<"ok", rs>>
=============================================================================
