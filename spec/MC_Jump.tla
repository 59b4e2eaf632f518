-------------------------------- MODULE MC_Jump --------------------------------
(* Jump-level programs and the statement budget: for every small program, every    *)
(* oracle and every limit, the limited run follows the unlimited one statement by   *)
(* statement and is cut off exactly when one statement too many would start.        *)
(* The statements: a probe, jumps and conditional jumps to two labels, the labels,   *)
(* return, a call of f, f as a callback of arrayIndexOf, dataFilter calling f with   *)
(* variables, an include.                                                            *)
EXTENDS Machine

CONSTANTS MaxLen, MaxLim, Cap

Letters == {"p", "j1", "j2", "c1", "c2", "L1", "L2", "r", "f", "k", "d", "i"}
NumE(k) == <<"num", <<"n", k>>>>
Txt(t) == <<"str", t>>
T1 == <<49>>
TEXT == <<102, 40, 49, 41>>       \* "f(1)"
CallF(n) == <<"call", "f", <<NumE(n)>>>>
Stm(l, n) ==
    CASE l = "p" -> <<"expr", "", <<"call", "hlog", <<NumE(n)>>>>>>
      [] l = "j1" -> <<"jump", "1">> [] l = "j2" -> <<"jump", "2">>
      [] l = "c1" -> <<"jumpif", "1", <<"call", "arrayPop", <<<<"var", "q">>>>>>>>
      [] l = "c2" -> <<"jumpif", "2", <<"call", "arrayPop", <<<<"var", "q">>>>>>>>
      [] l = "L1" -> <<"label", "1">> [] l = "L2" -> <<"label", "2">>
      [] l = "r" -> <<"returne", NumE(n)>>
      [] l = "f" -> <<"expr", "x", CallF(n)>>
      [] l = "k" -> <<"expr", "x", <<"call", "arrayIndexOf", <<<<"call", "arrayNew", <<NumE(0), NumE(1)>>>>, <<"var", "f">>>>>>>>
      [] l = "d" -> <<"expr", "x", <<"call", "dataFilter", <<<<"call", "arrayNew", <<<<"call", "objectNew", <<Txt(T1), NumE(1)>>>>>>>>, Txt(TEXT),
                                                               <<"call", "objectNew", <<Txt(T1), NumE(2)>>>>>>>>>>
      [] OTHER -> <<"include", <<<<FALSE, T1>>>>>>
ListOf(w, at) == [i \in 1..Len(w) |-> Stm(w[i], at + i)]
Words == UNION {[1..n -> Letters] : n \in 0..MaxLen}
\* bodies of f: they hold the labels of the caller's names as well
Bodies == {<<"p">>, <<"j1">>, <<"p", "c1", "r", "L1">>, <<>>, <<"L2", "p", "j2">>}
Oracles == {<<>>, <<Bool(TRUE), Bool(FALSE), Bool(TRUE)>>, <<Bool(FALSE), Bool(TRUE), Bool(TRUE), Bool(TRUE)>>}
File == <<"p", "j1", "r", "L1">>

Prog(w, b, q, lim) ==
    [codes |-> <<<<<<"function", 1>>>> \o ListOf(w, 0), ListOf(b, 10), ListOf(File, 20)>>,
     fns |-> <<[name |-> "f", args |-> <<"a">>, last |-> FALSE, code |-> 2]>>, main |-> 1, expr |-> NumE(0), loc |-> <<>>,
     glob |-> <<<<"q", <<"a", 1>>>>, <<"hlog", <<"host", "hlog">>>>>>, heap |-> <<<<"a", q>>>>, lim |-> lim, debug |-> FALSE, haslog |-> FALSE,
     inj |-> TRUE, bi |-> FALSE, names |-> <<<<"1", T1>>>>, exprs |-> <<<<TEXT, CallF(1)>>>>, unk |-> FALSE, base |-> <<>>, prefix |-> <<>>,
     fetch |-> "yes", files |-> <<<<T1, "ok", 3>>>>]

VARIABLES w, b, q, L, m, u, lm, lu
vars == <<w, b, q, L, m, u, lm, lu>>
M == Prog(w, b, q, L)
U == Prog(w, b, q, Cap)
Init == /\ w \in Words /\ L \in 0..MaxLim
        /\ b \in (IF \E i \in 1..Len(w) : w[i] \in {"f", "k", "d"} THEN Bodies ELSE {<<>>})
        /\ q \in (IF (\E i \in 1..Len(w) : w[i] \in {"c1", "c2"}) \/ b = <<"p", "c1", "r", "L1">> THEN Oracles ELSE {<<>>})
        /\ m = Begin(M) /\ u = Begin(U) /\ lm = <<>> /\ lu = <<>>
Obs(es) == [i \in 1..Len(es) |-> <<es[i][1], es[i][2]>>]
Stop(x) == Final(x) \/ x.n > Cap
StepM == IF Stop(m) THEN UNCHANGED <<m, lm>> ELSE LET x == Transition(M, m) IN m' = [x EXCEPT !.o = <<>>] /\ lm' = lm \o Obs(x.o)
StepU == IF Stop(u) THEN UNCHANGED <<u, lu>> ELSE LET x == Transition(U, u) IN u' = [x EXCEPT !.o = <<>>] /\ lu' = lu \o Obs(x.o)
Next == /\ ~(Stop(m) /\ Stop(u)) /\ StepM /\ StepU /\ UNCHANGED <<w, b, q, L>>
Spec == Init /\ [][Next]_vars

Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Aborted == m.st = "err" /\ m.v[1] = "budget"
\* at most L statements start; the run is aborted exactly when statement L + 1 would start
Exact == /\ (L > 0 => m.n <= L + 1)
         /\ (Aborted => L > 0 /\ m.n = L + 1 /\ u.n >= L + 1)
         /\ (L > 0 /\ m.n = L + 1 => Aborted)
\* a run of N statements is the same under every limit >= N and under none
Monotone == /\ (L = 0 \/ L >= Cap \/ ~Aborted) /\ u.n <= Cap => (L = 0 \/ L >= Cap \/ (m = u /\ lm = lu))
            /\ (~Aborted /\ L > 0 /\ L < Cap) => (m = u /\ lm = lu)
            /\ (Aborted => Prefix(lm, lu))
            /\ (L = 0 /\ ~Final(u) => m = u /\ lm = lu)
\* an unknown label is one the executing list does not define
Defined(code) == {U.codes[code][i][2] : i \in {j \in 1..Len(U.codes[code]) : U.codes[code][j][1] = "label"}}
LabelError == (u.st = "err" /\ u.v[1] = "label") => u.v[2] \notin Defined(u.a.code)
\* a statement goes to the next one, to the first label of a jump, or leaves the list
Flow == [][(~Final(u') /\ u'.k = u.k /\ u'.d = u.d /\ u'.a.code = u.a.code) =>
             LET s == U.codes[u.a.code][u.a.pc] t == u'.a.pc
             IN \/ t = u.a.pc + 1
                \/ s[1] \in {"jump", "jumpif"} /\ U.codes[u.a.code][t - 1] = <<"label", s[2]>>
                   /\ \A i \in 1..(t - 2) : U.codes[u.a.code][i] # <<"label", s[2]>>]_vars
NoOpen == m.st # "open" /\ u.st # "open"
=============================================================================
