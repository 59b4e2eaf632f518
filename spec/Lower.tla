--------------------------------- MODULE Lower ---------------------------------
(* Structured statements and their lowering to jumps and labels.                 *)
(* A structured statement is a tree                                              *)
(*   <<"p", n>>                 a probe (an observable expression statement)      *)
(*   <<"if", B>>  <<"ifelse", B, C>>  <<"elif", B, C, D>>  (each test pops the     *)
(*                              oracle; D is the else part)                        *)
(*   <<"while", B>>  <<"for", k, B>>  <<"break">>  <<"continue">>  <<"return">>     *)
(* Flat turns trees into the structured program of the Machine; Low turns them     *)
(* into a jump-level statement list with labels <<kind, n>> from one counter.      *)
EXTENDS Machine

Test == <<"call", "arrayPop", <<<<"var", "q">>>>>>
Not(e) == <<"un", "!", e>>
Probe(n) == <<"expr", "", <<"call", "hlog", <<<<"num", <<"n", n>>>>>>>>>>
Elems(k) == <<"call", "arrayNew", [i \in 1..k |-> <<"num", <<"n", i>>>>]>>
NameTab == <<"t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9">>
LenTab == <<"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9">>
IxTab == <<"i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9">>
Var(n) == <<"var", n>>

\* ---- structured: codes (a sequence of statement lists); the block is the last list
RECURSIVE FlatB(_, _), FlatS(_, _, _, _)
\* <<codes, index of the block>>
FlatS(b, i, codes, acc) ==
    IF i > Len(b) THEN <<Append(codes, acc), Len(codes) + 1>>
    ELSE LET s == b[i] t == s[1]
             f1 == FlatB(IF t = "for" THEN s[3] ELSE s[2], codes)
         IN CASE t = "p" -> FlatS(b, i + 1, codes, Append(acc, Probe(s[2])))
              [] t \in {"break", "continue", "return"} -> FlatS(b, i + 1, codes, Append(acc, <<t>>))
              [] t = "if" -> FlatS(b, i + 1, f1[1], Append(acc, <<"if", <<<<Test, f1[2]>>>>, 0>>))
              [] t = "ifelse" -> LET f2 == FlatB(s[3], f1[1])
                                 IN FlatS(b, i + 1, f2[1], Append(acc, <<"if", <<<<Test, f1[2]>>>>, f2[2]>>))
              [] t = "elif" -> LET f2 == FlatB(s[3], f1[1]) f3 == FlatB(s[4], f2[1])
                               IN FlatS(b, i + 1, f3[1], Append(acc, <<"if", <<<<Test, f1[2]>>, <<Test, f2[2]>>>>, f3[2]>>))
              [] t = "while" -> FlatS(b, i + 1, f1[1], Append(acc, <<"while", Test, f1[2]>>))
              [] OTHER -> FlatS(b, i + 1, f1[1], Append(acc, <<"for", "x", "", Elems(s[2]), f1[2]>>))
FlatB(b, codes) == FlatS(b, 1, codes, <<>>)

\* ---- jump level: <<statements, next label number>>; lp is the innermost loop <<break label, continue label>>
RECURSIVE UsesContinue(_)
UsesContinue(b) == \E i \in 1..Len(b) :
    CASE b[i][1] = "continue" -> TRUE
      [] b[i][1] = "if" -> UsesContinue(b[i][2])
      [] b[i][1] = "ifelse" -> UsesContinue(b[i][2]) \/ UsesContinue(b[i][3])
      [] b[i][1] = "elif" -> UsesContinue(b[i][2]) \/ UsesContinue(b[i][3]) \/ UsesContinue(b[i][4])
      [] OTHER -> FALSE
RECURSIVE Low(_, _, _, _, _)
Low(b, i, n, lp, acc) ==
    IF i > Len(b) THEN <<acc, n>>
    ELSE LET s == b[i] t == s[1]
             done == <<"Done", n>>
             loop == <<"Loop", n>>
             cont == <<"Continue", n>>
             next(r, stmts) == Low(b, i + 1, r[2], lp, acc \o stmts)
         IN CASE t = "p" -> Low(b, i + 1, n, lp, Append(acc, Probe(s[2])))
              [] t = "return" -> Low(b, i + 1, n, lp, Append(acc, <<"return">>))
              [] t = "break" -> Low(b, i + 1, n, lp, Append(acc, <<"jump", lp[1]>>))
              [] t = "continue" -> Low(b, i + 1, n, lp, Append(acc, <<"jump", lp[2]>>))
              [] t = "if" ->
                   LET r == Low(s[2], 1, n + 1, lp, <<>>)
                   IN next(r, <<<<"jumpif", done, Not(Test)>>>> \o r[1] \o <<<<"label", done>>>>)
              [] t = "ifelse" ->
                   LET r == Low(s[2], 1, n + 1, lp, <<>>) r2 == Low(s[3], 1, r[2], lp, <<>>)
                   IN next(r2, <<<<"jumpif", <<"If", n>>, Not(Test)>>>> \o r[1] \o <<<<"jump", done>>, <<"label", <<"If", n>>>>>> \o r2[1]
                               \o <<<<"label", done>>>>)
              [] t = "elif" ->
                   LET r == Low(s[2], 1, n + 1, lp, <<>>) r2 == Low(s[3], 1, r[2] + 1, lp, <<>>) r3 == Low(s[4], 1, r2[2], lp, <<>>)
                       if2 == <<"If", r[2]>>
                   IN next(r3, <<<<"jumpif", <<"If", n>>, Not(Test)>>>> \o r[1] \o <<<<"jump", done>>, <<"label", <<"If", n>>>>, <<"jumpif", if2, Not(Test)>>>>
                               \o r2[1] \o <<<<"jump", done>>, <<"label", if2>>>> \o r3[1] \o <<<<"label", done>>>>)
              [] t = "while" ->
                   LET r == Low(s[2], 1, n + 1, <<done, cont>>, <<>>)
                   IN next(r, <<<<"jumpif", done, Not(Test)>>, <<"label", loop>>>> \o r[1]
                              \o (IF UsesContinue(s[2]) THEN <<<<"label", cont>>>> ELSE <<>>) \o <<<<"jumpif", loop, Test>>, <<"label", done>>>>)
              [] OTHER ->
                   LET r == Low(s[3], 1, n + 1, <<done, cont>>, <<>>)
                       vs == NameTab[n + 1] ln == LenTab[n + 1] ix == IxTab[n + 1]
                   IN next(r, <<<<"expr", vs, Elems(s[2])>>, <<"expr", ln, <<"call", "arrayLength", <<Var(vs)>>>>>>, <<"jumpif", done, Not(Var(ln))>>,
                                <<"expr", ix, <<"num", NZero>>>>, <<"label", loop>>, <<"expr", "x", <<"call", "arrayGet", <<Var(vs), Var(ix)>>>>>>>> \o r[1]
                              \o (IF UsesContinue(s[3]) THEN <<<<"label", cont>>>> ELSE <<>>)
                              \o <<<<"expr", ix, <<"bin", "+", Var(ix), <<"num", <<"n", 1>>>>>>>>,
                                   <<"jumpif", loop, <<"bin", "<", Var(ix), Var(ln)>>>>, <<"label", done>>>>)
LowB(b) == Low(b, 1, 0, <<<<"none", 0>>, <<"none", 0>>>>, <<>>)[1]

\* ---- the label discipline of a statement list
Targets(c) == {c[i][2] : i \in {j \in 1..Len(c) : c[j][1] \in {"jump", "jumpif"}}}
LabelAt(c, l) == {i \in 1..Len(c) : c[i][1] = "label" /\ c[i][2] = l}
LabelsOf(c) == {c[i][2] : i \in {j \in 1..Len(c) : c[j][1] = "label"}}
TargetsDefinedOnce(c) == \A l \in Targets(c) : Cardinality(LabelAt(c, l)) = 1
LabelsUsed(c) == \A l \in LabelsOf(c) : l \in Targets(c)
=============================================================================
