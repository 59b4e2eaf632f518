------------------------------- MODULE Trace_Run -------------------------------
(* Trace validation: every recorded execution of a file is followed by the        *)
(* machine, one transition per statement; each gets a verdict.                    *)
EXTENDS Observe, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(T)

VARIABLES ci,   \* the record
          m,    \* the machine
          li,   \* next event of the record's log (0: an event did not match)
          done
vars == <<ci, m, li, done>>

\* a loose record is judged by its outcome only
First(R) == IF R.loose THEN OpenM(Start(R)) ELSE Begin(R)
Load(i) == /\ ci' = i
           /\ IF i > NT THEN m' = m /\ li' = 1 /\ done' = TRUE
              ELSE LET b == First(T[i]) IN m' = [b EXCEPT !.o = <<>>] /\ li' = Consume(b.o, T[i].log, 1) /\ done' = FALSE

Init == /\ ci = 1 /\ done = FALSE
        /\ m = [First(T[1]) EXCEPT !.o = <<>>]
        /\ li = Consume(First(T[1]).o, T[1].log, 1)

Stmt == /\ ~done /\ li # 0 /\ ~Final(m)
        /\ LET x == Transition(T[ci], m) IN m' = [x EXCEPT !.o = <<>>] /\ li' = Consume(x.o, T[ci].log, li)
        /\ UNCHANGED <<ci, done>>

Verdict == LET c == IF li = 0 THEN (IF T[ci].out.k = "exc" THEN "event:exc" ELSE "event") ELSE Outcome(T[ci], m, li)
           IN PrintT(<<"VERDICT", ci, c, m.st, m.n>>)
Finish == /\ ~done /\ (li = 0 \/ Final(m))
          /\ Verdict
          /\ Load(ci + 1)

Next == Stmt \/ Finish
Spec == Init /\ [][Next]_vars

\* the step counter never passes the limit by more than the aborted statement
CountInv == done \/ T[ci].lim = 0 \/ m.n <= T[ci].lim + 1
=============================================================================
