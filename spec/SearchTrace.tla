----------------------------- MODULE SearchTrace -----------------------------
(* Runs of the real algorithms: every evaluation, the solution reported if   *)
(* the next evaluation is refused (budget) or ends the run (target), the     *)
(* solution reported at the end, the cost, and repetitions of the run.       *)
EXTENDS Search, TraceLib
VARIABLES i, s, ref
vars == <<i, s, ref>>

Step(r) ==
  CASE r.e = "run"  -> s' = Start([now |-> r.now, step |-> r.step, skip |-> r.skip, lag |-> r.lag]) /\ UNCHANGED ref
    [] r.e = "eval" -> s' = Evaluate(s, r.x, r.v) /\ UNCHANGED ref
    [] r.e = "stop" -> ReportedOnStop(s, r.x, r.v) /\ UNCHANGED <<s, ref>>
    [] r.e = "done" -> ReportedAtEnd(s, r.x, r.v) /\ UNCHANGED <<s, ref>>
    \* restarting: a run with K complete runs inside reports the best of all of them (same rule as done)
    \* costs
    [] r.e = "total" -> /\ LET T == Len(s.hist)
                           IN  IF r.ends THEN T >= 1 /\ T <= Cost(r.init, r.per, r.N)
                               ELSE T >= Cost(r.init, r.per, r.N) /\ T <= Cost(r.init, r.per + r.extra, r.N)
                        /\ UNCHANGED <<s, ref>>
    \* without a limit on iterations only the interruption ends the run
    [] r.e = "endless" -> r.stopped /\ r.T = r.B /\ UNCHANGED <<s, ref>>
    \* a run is a function of the configuration and the seed: the same evaluations again
    [] r.e = "same" -> r.xs = s.hist /\ UNCHANGED <<s, ref>>
    \* sequences of draws: first occurrence of a key defines it, later ones have to agree
    [] r.e = "draw" -> /\ IF r.k \in DOMAIN ref THEN r.xs = ref[r.k] /\ UNCHANGED ref
                          ELSE ref' = [k \in DOMAIN ref \cup {r.k} |-> IF k = r.k THEN r.xs ELSE ref[k]]
                       /\ UNCHANGED s
    [] r.e = "forget" -> ref' = [k \in {} |-> <<>>] /\ UNCHANGED s
    [] r.e = "differ" -> r.a # r.b /\ UNCHANGED <<s, ref>>
    [] OTHER -> FALSE

Init == i = 1 /\ s = Start([now |-> 0, step |-> 1, skip |-> 0, lag |-> -1]) /\ ref = [k \in {} |-> <<>>]
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
