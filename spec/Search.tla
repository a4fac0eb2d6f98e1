------------------------------- MODULE Search --------------------------------
(* A run of a search algorithm, seen from outside: it evaluates points one   *)
(* after the other, may be interrupted at any evaluation, and reports a      *)
(* solution.  Points and values are numbers (values are ranks: only their    *)
(* order matters).                                                           *)
(*                                                                           *)
(* What an evaluation contributes, and when, depends on the algorithm:       *)
(*   now   the first `now` evaluations are taken into account at once,       *)
(*   step  afterwards evaluations are taken into account in groups (one      *)
(*         iteration), when the group is complete,                           *)
(*   skip  the first `skip` evaluations of a group are never candidates,     *)
(*   lag   groups of varying size: all but the last `lag` evaluations have   *)
(*         been taken into account (-1: groups are regular).                 *)
EXTENDS Integers, Sequences, FiniteSets

Start(c) == [c |-> c, hist |-> <<>>, seen |-> {}, best |-> <<>>, top |-> <<>>]

\* evaluation number e of a run is a candidate for the solution
Candidate(c, e) == e <= c.now \/ ((e - c.now - 1) % c.step) >= c.skip

\* number of evaluations settled once e evaluations have completed
Settled(c, e) ==
  IF c.lag >= 0 THEN (IF e <= c.lag THEN 0 ELSE e - c.lag)
  ELSE IF e <= c.now THEN e
  ELSE c.now + ((e - c.now) \div c.step) * c.step

\* best[e]: best candidate value of the first e evaluations (0 if there is none: ranks are positive)
Best(s, e) == IF e = 0 THEN 0 ELSE s.best[e]

Evaluate(s, x, v) ==
  LET e == Len(s.hist) + 1
      b == Best(s, e - 1)
  IN  [s EXCEPT !.hist = Append(@, <<x, v>>),
                !.seen = @ \cup {<<x, v>>},
                !.best = Append(@, IF Candidate(s.c, e) /\ v > b THEN v ELSE b)]

\* the solution reported is an evaluated point with its own value
Genuine(s, x, v) == <<x, v>> \in s.seen

\* reported after an interruption: nothing settled is lost
ReportedOnStop(s, x, v) ==
  /\ Genuine(s, x, v)
  /\ v >= Best(s, Settled(s.c, Len(s.hist)))

\* reported at the end of the run: the best
ReportedAtEnd(s, x, v) ==
  /\ Genuine(s, x, v)
  /\ v >= Best(s, Len(s.hist))
  /\ (s.c.skip = 0 => v = Best(s, Len(s.hist)))

\* announced cost of a run limited to N iterations
Cost(init, per, N) == init + N * per
=============================================================================
