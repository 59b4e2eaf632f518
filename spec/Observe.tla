-------------------------------- MODULE Observe --------------------------------
(* Is a recorded execution of the implementation a behaviour of the machine?     *)
(* A record R is a program P (see Machine) with                                   *)
(*   log   the recorded events in order                                           *)
(*   out   [k |-> "ok"/"err"/..., v |-> value, h |-> heap, e |-> error,           *)
(*          g |-> final globals <<name, value>>, missing |-> library names that    *)
(*          are no longer bound, n |-> statement count (-1: not recorded)]         *)
EXTENDS Machine

\* an event of the machine against a recorded one
EventOk(e, r) ==
    CASE e[1] = "L" -> r = e
      [] e[1] = "LX" -> r[1] = "L"
      [] e[1] = "U" -> r = e
      [] e[1] \in {"F", "F?"} -> r[1] = "F" /\ r[2] = e[2]
      [] OTHER -> \* "O": a list of values
            r[1] = "O" /\ Len(r[2]) = Len(e[2]) /\ MatchSeq(e[2], r[2], 1, e[3], r[3], {})[1]
\* the index after the events es, from index i of the log; 0 when they do not match
RECURSIVE Consume(_, _, _)
Consume(es, log, i) ==
    IF es = <<>> THEN i
    ELSE IF es[1][1] = "F?" /\ (i > Len(log) \/ log[i][1] # "F" \/ log[i][2] # es[1][2]) THEN Consume(Tail(es), log, i)
    ELSE IF i > Len(log) \/ ~EventOk(es[1], log[i]) THEN 0
    ELSE Consume(Tail(es), log, i + 1)

\* the caller's globals: data functions with variables evaluate over a copy, which an abort leaves behind
RECURSIVE Caller(_, _)
Caller(k, g) == IF k = <<>> THEN g ELSE Caller(k[2], IF k[1][1] = "rows" /\ k[1][7] # <<>> THEN k[1][7][1] ELSE g)
IsHidden(R, n) == \E i \in 1..Len(R.hidden) : R.hidden[i] = n
SpecGlobals(R, m) ==
    {n \in DOMAIN m.g : m.g[n] # <<"lib", n>> /\ ~IsHidden(R, n)}
RECURSIVE MatchGlobals(_, _, _, _, _, _)
MatchGlobals(gs, i, g, h, oh, mp) ==
    IF i > Len(gs) THEN <<TRUE, mp>>
    ELSE LET r == MatchV(g[gs[i][1]], gs[i][2], h, oh, mp) IN IF r[1] THEN MatchGlobals(gs, i + 1, g, h, oh, r[2]) ELSE r

ErrOk(e, o) == CASE e[1] = "other" -> o[1] = "other" [] e[1] = "budget" -> o[1] = "budget" [] OTHER -> o = e

\* the exit code of the command line
ExitCode(v, h) == IF v[1] = "n" /\ v[2] >= 0 /\ v[2] <= 255 THEN v[2] ELSE IF Truthy(v, h) THEN 1 ELSE 0
ExitOpen(v) == v[1] \in {"any", "near", "nan", "inf", "unk", "rx", "pct"}

\* "" when the outcome is the machine's, otherwise the clause that fails
Outcome(R, m0, li) ==
    LET o == R.out
        m == [m0 EXCEPT !.g = Caller(m0.k, @)]
        res == IF m.st = "done" THEN MatchV(m.v, o.v, m.h, o.h, {}) ELSE <<TRUE, {}>>
    IN IF o.k = "exc" THEN "outcome:exc"      \* no host exception escapes, whatever the program does
       ELSE IF m.st = "open" THEN ""
       ELSE IF o.k = "code" THEN (IF li # Len(R.log) + 1 THEN "surplus-events" ELSE IF m.st # "done" THEN "outcome:" \o m.st
                                  ELSE IF ~ExitOpen(m.v) /\ o.code # ExitCode(m.v, m.h) THEN "exit-code" ELSE "")
       ELSE IF li # Len(R.log) + 1 THEN "surplus-events"
       ELSE IF m.st = "done" /\ o.k # "ok" THEN "outcome:" \o o.k
       ELSE IF m.st = "err" /\ (o.k # "err" \/ ~ErrOk(m.v, o.e)) THEN "error:" \o o.k
       ELSE IF ~res[1] THEN "result"
       ELSE IF ~R.globs THEN ""
       ELSE IF SpecGlobals(R, m) # {o.g[i][1] : i \in 1..Len(o.g)} THEN "global-names"
       ELSE IF R.inj /\ o.missing # <<>> THEN "library-missing"
       ELSE IF ~MatchGlobals(o.g, 1, m.g, m.h, o.h, res[2])[1] THEN "globals"
       ELSE IF m.st = "done" /\ o.n >= 0 /\ ~m.nx /\ o.n # m.n THEN "statement-count"
       ELSE ""
=============================================================================
