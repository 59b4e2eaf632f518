------------------------------- MODULE MC_Lower -------------------------------
(* Refinement: for every small structured program and every oracle, the lowered   *)
(* program executes the same probes, ends the same way, and its labels are well    *)
(* formed.  Both programs are executed by the Machine, statement by statement.     *)
EXTENDS Lower

CONSTANTS Deep,      \* longer blocks inside if/else
          QLen       \* oracle length

P1(S) == {<<s>> : s \in S}
P2s(S) == {<<s, t>> : s \in S, t \in S}
L0(lp) == {<<"p", 1>>, <<"return">>} \cup (IF lp THEN {<<"break">>, <<"continue">>} ELSE {})
B0(lp) == {<<>>} \cup P1(L0(lp)) \cup P2s(L0(lp))
S0(lp) == IF Deep THEN B0(lp) ELSE {<<>>} \cup P1(L0(lp))
L1(lp) == L0(lp) \cup {<<"if", b>> : b \in B0(lp)} \cup {<<"ifelse", b, c>> : b \in S0(lp), c \in S0(lp)}
          \cup {<<"elif", b, c, d>> : b \in P1(L0(lp)), c \in P1(L0(lp)), d \in P1(L0(lp))}
          \cup {<<"while", b>> : b \in B0(TRUE)} \cup {<<"for", 2, b>> : b \in B0(TRUE)}
\* a compound statement between probes
Around(lp) == {<<<<"p", 2>>, s, <<"p", 3>>>> : s \in L1(lp)}
Programs == {<<<<"while", b>>, <<"p", 4>>>> : b \in Around(TRUE)} \cup {<<<<"for", 2, b>>, <<"p", 4>>>> : b \in Around(TRUE)}
            \cup {<<<<"ifelse", b, <<<<"p", 5>>>>>>>> : b \in Around(FALSE)} \cup {<<<<"ifelse", <<<<"p", 5>>>>, b>>, <<"p", 4>>>> : b \in Around(FALSE)}
            \cup {<<s, t>> : s \in {<<"while", <<<<"p", 1>>>>>>, <<"for", 0, <<<<"p", 1>>>>>>, <<"if", <<<<"p", 1>>>>>>}, t \in L1(FALSE)}

Base(codes, main, q) ==
    [codes |-> codes, fns |-> <<>>, main |-> main, expr |-> <<"num", NZero>>, loc |-> <<>>,
     glob |-> <<<<"q", <<"a", 1>>>>, <<"hlog", <<"host", "hlog">>>>>>, heap |-> <<<<"a", q>>>>, lim |-> 0, debug |-> FALSE, haslog |-> FALSE,
     inj |-> TRUE, bi |-> FALSE, names |-> <<>>, exprs |-> <<>>, unk |-> FALSE, base |-> <<>>, prefix |-> <<>>, fetch |-> "no", files |-> <<>>]
Structured(t, q) == LET f == FlatB(t, <<>>) IN Base(f[1], f[2], q)
Lowered(t, q) == Base(<<LowB(t)>>, 1, q)

VARIABLES prog, q, m1, m2, l1, l2
vars == <<prog, q, m1, m2, l1, l2>>
Args(es) == [i \in 1..Len(es) |-> es[i][2]]
Init == /\ prog \in Programs
        /\ q \in UNION {[1..n -> {Bool(TRUE), Bool(FALSE)}] : n \in {QLen}}
        /\ m1 = Begin(Structured(prog, q)) /\ m2 = Begin(Lowered(prog, q)) /\ l1 = <<>> /\ l2 = <<>>
Step1 == ~Final(m1) /\ (LET x == Transition(Structured(prog, q), m1) IN m1' = [x EXCEPT !.o = <<>>] /\ l1' = l1 \o Args(x.o)) /\ UNCHANGED <<prog, q, m2, l2>>
Step2 == Final(m1) /\ ~Final(m2)
         /\ (LET x == Transition(Lowered(prog, q), m2) IN m2' = [x EXCEPT !.o = <<>>] /\ l2' = l2 \o Args(x.o)) /\ UNCHANGED <<prog, q, m1, l1>>
Next == Step1 \/ Step2
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Refines == /\ Final(m1) => (Prefix(l2, l1) /\ m1.st = "done")
           /\ (Final(m1) /\ Final(m2)) => (l1 = l2 /\ m2.st = "done" /\ m1.h[1] = m2.h[1] /\ ("x" \in DOMAIN m1.g <=> "x" \in DOMAIN m2.g)
                                         /\ ("x" \in DOMAIN m1.g => m1.g["x"] = m2.g["x"]))
Labels == LET c == LowB(prog) IN TargetsDefinedOnce(c) /\ LabelsUsed(c)
\* no program runs for ever
Bounded == m1.n < 100 /\ m2.n < 300
=============================================================================
