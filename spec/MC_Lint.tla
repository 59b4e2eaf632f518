-------------------------------- MODULE MC_Lint --------------------------------
(* Acting on a justified warning changes nothing: for every small function body and   *)
(* main program, renaming an unused variable or argument, deleting an unused label or  *)
(* a pointless statement gives the same events, result and globals; and a run that      *)
(* fails with an unknown label fails with one of UnknownLabels of the executing scope.  *)
EXTENDS Machine, Lint

CONSTANTS MaxBody, MaxMain, Cap

NumE(k) == <<"num", <<"n", k>>>>
Var(x) == <<"var", x>>
Hlog(e) == <<"call", "hlog", <<e>>>>
Letters == {"p", "x", "y", "rx", "hx", "jl", "jm", "cl", "Ll", "Lm", "Lu", "v", "b"}
Stm(l) ==
    CASE l = "p" -> <<"expr", "", Hlog(Var("y"))>>
      [] l = "x" -> <<"expr", "x", NumE(5)>>                       \* assignments
      [] l = "y" -> <<"expr", "y", Hlog(NumE(6))>>
      [] l = "hx" -> <<"expr", "", Hlog(Var("x"))>>
      [] l = "rx" -> <<"returne", Var("x")>>
      [] l = "jl" -> <<"jump", "l">> [] l = "jm" -> <<"jump", "m">>
      [] l = "cl" -> <<"jumpif", "l", <<"call", "arrayPop", <<Var("q")>>>>>>
      [] l = "Ll" -> <<"label", "l">> [] l = "Lm" -> <<"label", "m">> [] l = "Lu" -> <<"label", "u">>
      [] l = "v" -> <<"expr", "", <<"bin", "+", Var("x"), <<"un", "!", NumE(1)>>>>>>    \* pointless
      [] OTHER -> <<"expr", "", <<"bin", "==", Var("y"), Hlog(NumE(8))>>>>              \* not pointless
ListOf(w) == [i \in 1..Len(w) |-> Stm(w[i])]
Words(n) == UNION {[1..k -> Letters] : k \in 0..n}
Signatures == {<<>>, <<"x">>, <<"y", "x">>}

Prog(code1, code2, args) ==
    [codes |-> <<code1, code2>>, fns |-> <<[name |-> "f", args |-> args, last |-> FALSE, code |-> 2]>>, main |-> 1, expr |-> NumE(0), loc |-> <<>>,
     glob |-> <<<<"q", <<"a", 1>>>>, <<"x", <<"n", 3>>>>, <<"hlog", <<"host", "hlog">>>>>>, heap |-> <<<<"a", <<Bool(FALSE), Bool(TRUE)>>>>>>, lim |-> Cap,
     debug |-> FALSE, haslog |-> FALSE, inj |-> TRUE, bi |-> FALSE, names |-> <<>>, exprs |-> <<>>, unk |-> FALSE, base |-> <<>>, prefix |-> <<>>,
     fetch |-> "no", files |-> <<>>]
Main(w) == <<<<"function", 1>>>> \o ListOf(w) \o <<<<"expr", "", <<"call", "f", <<NumE(1), NumE(2)>>>>>>>>

\* the edits: <<kind, program>>
FArgs(args, x) == [i \in 1..Len(args) |-> IF args[i] = x THEN "fresh" ELSE args[i]]
Edits(w, b, args) ==
    LET c1 == Main(w) c2 == ListOf(b)
        f == [name |-> "f", args |-> args, last |-> FALSE, code |-> 2]
    IN {Prog(c1, Renamed(c2, x, "fresh"), FArgs(args, x)) : x \in UnusedVars(c2) \cup UnusedArgs(f, c2)}
       \cup {Prog(c1, SelectSeq(c2, LAMBDA s : s # <<"label", l>>), args) : l \in UnusedLabels(c2)}
       \cup {Prog(c1, Without(c2, i), args) : i \in Pointless(c2)}
       \cup {Prog(SelectSeq(c1, LAMBDA s : s # <<"label", l>>), c2, args) : l \in UnusedLabels(c1)}
       \cup {Prog(Without(c1, i), c2, args) : i \in Pointless(c1)}

RECURSIVE Exec(_, _, _)
Exec(P, m, log) == IF Final(m) THEN <<m, log>> ELSE LET x == Transition(P, m) IN Exec(P, [x EXCEPT !.o = <<>>], log \o [i \in 1..Len(x.o) |-> <<x.o[i][1], x.o[i][2]>>])
RunOf(P) == Exec(P, Begin(P), <<>>)

VARIABLES w, b, args
vars == <<w, b, args>>
Init == w \in Words(MaxMain) /\ b \in Words(MaxBody) /\ args \in Signatures
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

SameRun(x, y) == x[1].st = y[1].st /\ x[1].v = y[1].v /\ x[2] = y[2]
              /\ {<<n, x[1].g[n]>> : n \in DOMAIN x[1].g} = {<<n, y[1].g[n]>> : n \in DOMAIN y[1].g}
Budget(x) == x[1].st = "err" /\ x[1].v[1] = "budget"
Justified == LET P == Prog(Main(w), ListOf(b), args)
                 E == Edits(w, b, args)
             IN E # {} => LET r == RunOf(P) IN Budget(r) \/ \A e \in E : SameRun(r, RunOf(e))
Predicted == LET P == Prog(Main(w), ListOf(b), args) r == RunOf(P)
             IN r[1].st = "err" /\ r[1].v[1] = "label" => r[1].v[2] \in UnknownLabels(P.codes[r[1].a.code])
=============================================================================
