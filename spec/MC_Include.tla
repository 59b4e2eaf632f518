------------------------------- MODULE MC_Include -------------------------------
(* Includes: the machine against a direct recursive reading.  The files at four     *)
(* locations have arbitrary small contents; main lies in directory d.               *)
EXTENDS Machine

CONSTANTS MainLen, FileLen, Cap

D == <<100, 47>>            \* "d/"
Refs == [b |-> <<98>>, s |-> <<115, 47, 98>>, u |-> <<46, 46, 47, 99>>, a |-> <<47, 99>>]     \* b  s/b  ../c  /c
Locs == <<D \o <<98>>, D \o <<115, 47, 98>>, D \o <<46, 46, 47, 99>>, <<47, 99>>>>              \* d/b d/s/b d/../c /c
Letters == {"p", "r", "b", "s", "u", "a"}
Words(n) == UNION {[1..k -> Letters] : k \in 0..n}
Stm(l, n) == CASE l = "p" -> <<"expr", "x", <<"call", "hlog", <<<<"num", <<"n", n>>>>>>>>>>
               [] l = "r" -> <<"return">>
               [] OTHER -> <<"include", <<<<FALSE, Refs[l]>>>>>>
ListOf(w, at) == [i \in 1..Len(w) |-> Stm(w[i], at + i)]
Prog(w, fs) ==
    [codes |-> <<ListOf(w, 0)>> \o [i \in 1..4 |-> ListOf(fs[i], 10 * i)],
     fns |-> <<>>, main |-> 1, expr |-> <<"num", NZero>>, loc |-> <<>>,
     glob |-> <<<<"hlog", <<"host", "hlog">>>>>>, heap |-> <<>>, lim |-> Cap, debug |-> FALSE, haslog |-> FALSE,
     inj |-> TRUE, bi |-> FALSE, names |-> <<>>, exprs |-> <<>>, unk |-> FALSE, base |-> <<D \o <<109>>>>, prefix |-> <<>>,
     fetch |-> "yes", files |-> [i \in 1..4 |-> <<Locs[i], "ok", i + 1>>]]

VARIABLES w, fs, m, log
vars == <<w, fs, m, log>>
P == Prog(w, fs)
Init == /\ w \in Words(MainLen) /\ fs \in [1..4 -> Words(FileLen)]
        /\ (\E i \in 1..Len(w) : w[i] \notin {"p", "r"})
        /\ m = Begin(P) /\ log = <<>>
Obs(es) == [i \in 1..Len(es) |-> IF es[i][1] = "U" THEN <<"U", es[i][2]>> ELSE <<"O", <<es[i][2][1][2]>>>>]
Next == ~Final(m) /\ (LET x == Transition(P, m) IN m' = [x EXCEPT !.o = <<>>] /\ log' = log \o Obs(x.o)) /\ UNCHANGED <<w, fs>>
Spec == Init /\ [][Next]_vars

\* the direct reading: the events of a file's statements from the i-th on; <<events, failed, cut off>>
RECURSIVE Read(_, _, _, _)
Read(here, code, i, fuel) ==
    IF i > Len(P.codes[code]) \/ P.codes[code][i][1] = "return" THEN <<<<>>, FALSE, FALSE>>
    ELSE IF fuel = 0 THEN <<<<>>, FALSE, TRUE>>
    ELSE LET s == P.codes[code][i]
         IN IF s[1] = "expr" THEN LET r == Read(here, code, i + 1, fuel - 1) IN <<<<<<"O", <<s[3][3][1][2][2]>>>>>> \o r[1], r[2], r[3]>>
            ELSE LET url == Resolve(here, s[2][1][2])
                     ks == {k \in 1..4 : Locs[k] = url}
                 IN IF ks = {} THEN <<<<<<"U", url>>>>, TRUE, FALSE>>
                    ELSE LET r == Read(url, 1 + (CHOOSE k \in ks : TRUE), 1, fuel - 1)
                         IN IF r[2] \/ r[3] THEN <<<<<<"U", url>>>> \o r[1], r[2], r[3]>>
                            ELSE LET t == Read(here, code, i + 1, fuel - 1) IN <<<<<<"U", url>>>> \o r[1] \o t[1], t[2], t[3]>>
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Direct == Final(m) =>
    LET r == Read(D \o <<109>>, 1, 1, 6)
    IN /\ (m.st = "done" => ((log = r[1] /\ ~r[2]) \/ r[3]))
       /\ ((m.st = "err" /\ m.v[1] = "include") => ((log = r[1] /\ r[2]) \/ r[3]))
       /\ (r[3] => (Prefix(r[1], log) \/ Prefix(log, r[1])))
       /\ ((m.st = "err" /\ m.v[1] = "budget") => r[3])
\* every file runs in global scope and knows its own location
Where == m.a.loc = <<>> /\ m.a.base = (IF m.a.code = 1 THEN P.base ELSE <<Locs[m.a.code - 1]>>)
=============================================================================
