-------------------------------- MODULE Lint --------------------------------
(* What the lint warnings mean: the scopes of a program (the top-level list and each  *)
(* function body), their labels and jumps, the names they read and assign.  A         *)
(* program is a machine program (codes, fns, main).                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Reads(_)
ReadsAll(es) == UNION {Reads(es[i]) : i \in 1..Len(es)}
Reads(e) == \* the names an expression reads, function names included
    CASE e[1] = "var" -> {e[2]}
      [] e[1] = "call" -> {e[2]} \cup ReadsAll(e[3])
      [] e[1] = "bin" -> Reads(e[3]) \cup Reads(e[4])
      [] e[1] = "un" -> Reads(e[3])
      [] e[1] = "grp" -> Reads(e[2])
      [] OTHER -> {}
RECURSIVE Calls(_)
Calls(e) ==
    CASE e[1] = "call" -> TRUE
      [] e[1] = "bin" -> Calls(e[3]) \/ Calls(e[4])
      [] e[1] = "un" -> Calls(e[3])
      [] e[1] = "grp" -> Calls(e[2])
      [] OTHER -> FALSE
StmtReads(s) == CASE s[1] = "expr" -> Reads(s[3]) [] s[1] = "jumpif" -> Reads(s[3]) [] s[1] = "returne" -> Reads(s[2]) [] OTHER -> {}
ListReads(c) == UNION {StmtReads(c[i]) : i \in 1..Len(c)}
Assigned(c) == {c[i][2] : i \in {j \in 1..Len(c) : c[j][1] = "expr" /\ c[j][2] # ""}}
Targets(c) == {c[i][2] : i \in {j \in 1..Len(c) : c[j][1] \in {"jump", "jumpif"}}}
LabelIxs(c) == {j \in 1..Len(c) : c[j][1] = "label"}
Labels(c) == {c[i][2] : i \in LabelIxs(c)}
UnknownLabels(c) == Targets(c) \ Labels(c)
DupLabels(c) == {l \in Labels(c) : Cardinality({i \in LabelIxs(c) : c[i][2] = l}) > 1}
FnIxs(c) == {j \in 1..Len(c) : c[j][1] = "function"}
DupFns(fns, c) == {n \in {fns[c[i][2]].name : i \in FnIxs(c)} : Cardinality({i \in FnIxs(c) : fns[c[i][2]].name = n}) > 1}
DupArgs(f) == {a \in {f.args[i] : i \in 1..Len(f.args)} : Cardinality({i \in 1..Len(f.args) : f.args[i] = a}) > 1}
\* justified warnings (those that may be acted on)
UnusedVars(c) == Assigned(c) \ ListReads(c)
UnusedArgs(f, c) == {f.args[i] : i \in 1..Len(f.args)} \ ListReads(c)
UnusedLabels(c) == Labels(c) \ Targets(c)
Pointless(c) == {i \in 1..Len(c) : c[i][1] = "expr" /\ c[i][2] = "" /\ ~Calls(c[i][3])}

\* the edits
Without(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
Renamed(c, x, y) == [i \in 1..Len(c) |-> IF c[i][1] = "expr" /\ c[i][2] = x THEN <<"expr", y, c[i][3]>> ELSE c[i]]
=============================================================================
