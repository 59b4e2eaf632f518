-------------------------------- MODULE MC_Scope --------------------------------
(* Scopes and the calling convention, over every signature, number of arguments,     *)
(* call path, small function body and set of global names: the parameters are bound  *)
(* as declared, assignments inside the function leave the globals alone, reads see   *)
(* locals before globals, and the caller's variables are back after the call.         *)
EXTENDS Machine

CONSTANTS MaxArgs, MaxBody

NumE(k) == <<"num", <<"n", k>>>>
Var(x) == <<"var", x>>
Names == {"x", "y", "g"}
Sigs0 == {<<>>, <<"x">>, <<"x", "y">>, <<"y", "x">>, <<"g", "x">>, <<"x", "x">>, <<"x", "y", "g">>}
Signatures == {<<s, FALSE>> : s \in Sigs0} \cup {<<s, TRUE>> : s \in Sigs0 \ {<<>>}}
Paths == {"direct", "variable", "partial", "find", "nested", "host"}
Probe == <<"expr", "", <<"call", "hlog", <<Var("x"), Var("y"), Var("g")>>>>>>
Bodies == UNION {[1..n -> Names] : n \in 0..MaxBody}
Assigns(b) == [i \in 1..Len(b) |-> <<"expr", b[i], NumE(60 + i)>>]
Args(n) == [i \in 1..n |-> NumE(i)]
Use(p, n) ==
    CASE p = "direct" -> <<"call", "f", Args(n)>>
      [] p = "variable" -> <<"call", "v", Args(n)>>
      [] p = "partial" -> <<"call", "p", Args(n)>>
      [] p = "host" -> <<"call", "hcall", <<Var("f")>> \o Args(n)>>
      [] p = "nested" -> <<"call", "k", <<>>>>
      [] OTHER -> <<"call", "arrayIndexOf", <<<<"call", "arrayNew", Args(1)>>, Var("f")>>>>
Given(p, n) == \* the values f is called with
    CASE p = "partial" -> <<<<"n", 90>>>> \o [i \in 1..n |-> <<"n", i>>] [] p = "find" -> <<<<"n", 1>>>> [] OTHER -> [i \in 1..n |-> <<"n", i>>]

Prog(sig, b, p, n, gs) ==
    [codes |-> <<<<<<"function", 1>>, <<"function", 2>>, <<"expr", "v", Var("f")>>, <<"expr", "p", <<"call", "systemPartial", <<Var("f"), NumE(90)>>>>>>,
                   <<"expr", "r", Use(p, n)>>, Probe>>,
                 <<Probe>> \o Assigns(b) \o <<Probe, <<"returne", NumE(0)>>>>,
                 \* k has locals of its own
                 <<<<"expr", "x", NumE(70)>>, <<"expr", "g", NumE(71)>>, <<"expr", "z", <<"call", "f", Args(n)>>>>, Probe, <<"returne", Var("x")>>>>>>,
     fns |-> <<[name |-> "f", args |-> sig[1], last |-> sig[2], code |-> 2], [name |-> "k", args |-> <<>>, last |-> FALSE, code |-> 3]>>,
     main |-> 1, expr |-> NumE(0), loc |-> <<>>,
     glob |-> SetToSeq({<<x, <<"s", <<65>>>>>> : x \in gs} \cup {<<"hlog", <<"host", "hlog">>>>, <<"hcall", <<"host", "hcall">>>>}), heap |-> <<>>, lim |-> 0,
     debug |-> FALSE, haslog |-> FALSE, inj |-> TRUE, bi |-> FALSE, names |-> <<>>, exprs |-> <<>>, unk |-> FALSE, base |-> <<>>, prefix |-> <<>>,
     fetch |-> "no", files |-> <<>>]

VARIABLES sig, b, p, n, gs, m
vars == <<sig, b, p, n, gs, m>>
P == Prog(sig, b, p, n, gs)
Init == /\ sig \in Signatures /\ b \in Bodies /\ p \in Paths /\ n \in 0..MaxArgs /\ gs \in SUBSET Names
        /\ (p = "find" => n = 1)
        /\ m = Begin(P)
Next == ~Final(m) /\ m' = Transition(P, m) /\ UNCHANGED <<sig, b, p, n, gs>>
Spec == Init /\ [][Next]_vars

InF == m.st = "run" /\ m.a.code = 2
\* what the call binds, written down independently of the machine
Value(x) == \* the value of parameter x: the last position named x
    LET ps == {i \in 1..Len(sig[1]) : sig[1][i] = x}
        i == CHOOSE i \in ps : \A j \in ps : j <= i
        vs == Given(p, n)
    IN IF sig[2] /\ i = Len(sig[1]) THEN <<"rest", IF Len(vs) >= i THEN SubSeq(vs, i, Len(vs)) ELSE <<>>>>
       ELSE IF i <= Len(vs) THEN vs[i] ELSE Null
Matches(v, w) == IF w[1] = "rest" THEN v[1] = "a" /\ m.h[v[2]] = <<"a", w[2]>> ELSE v = w
Binding == InF /\ m.a.pc = 1 => /\ DOMAIN m.a.loc[1] = {sig[1][i] : i \in 1..Len(sig[1])}
                                /\ \A x \in DOMAIN m.a.loc[1] : Matches(m.a.loc[1][x], Value(x))
\* the rest array is fresh in every call
Fresh == InF /\ m.a.pc = 1 /\ sig[2] => \A x \in DOMAIN m.g : m.g[x] # m.a.loc[1][sig[1][Len(sig[1])]]
\* a function's assignments are its own
LocalOnly == [][m.d > 0 => m'.g = m.g \/ m'.d = 0]_vars
GlobalsKept == \A x \in Names : IF x \in gs THEN m.g[x] = <<"s", <<65>>>> ELSE x \notin DOMAIN m.g
\* reads: the probe after the assignments sees the last one, or the parameter, or the global, or null
Seen(x) == LET as == {i \in 1..Len(b) : b[i] = x}
           IN IF as # {} THEN <<"n", 60 + CHOOSE i \in as : \A j \in as : j <= i>>
              ELSE IF \E i \in 1..Len(sig[1]) : sig[1][i] = x THEN Value(x)
              ELSE IF x \in gs THEN <<"s", <<65>>>> ELSE Null
Reads == InF /\ m.a.pc = Len(P.codes[2]) => \* the probe has just been run
    \A e \in {m.o[i] : i \in 1..Len(m.o)} : \A i \in 1..3 : Matches(e[2][i], Seen(<<"x", "y", "g">>[i]))
\* in k again: its own locals
Caller == m.st = "run" /\ m.a.code = 3 /\ m.a.pc = 4 => m.a.loc[1]["x"] = <<"n", 70>> /\ m.a.loc[1]["g"] = <<"n", 71>> /\ "y" \notin DOMAIN m.a.loc[1]
Ends == m.st # "open" /\ m.st # "err" /\ (m.st = "done" => m.d = 0 /\ m.a.loc = <<>>)
=============================================================================
