------------------------------ MODULE MC_Moves -------------------------------
(* The enumeration of a Hamming sphere by increasing index combinations,     *)
(* with restarts at any moment, refines the abstract enumeration of Moves;   *)
(* and propose / keep / forget keep origin, candidate and flips consistent.  *)
EXTENDS Moves
CONSTANTS N, Histories
VARIABLES r, cur, idx, fresh, origin, seen, restarts
vars == <<r, cur, idx, fresh, origin, seen, restarts>>

Init == /\ r \in 0..N /\ cur \in BitVectors(N) /\ idx = [k \in 1..r |-> 0] /\ fresh = TRUE
        /\ origin = cur /\ seen = {} /\ restarts = 0

\* the combination algorithm
Grows(k) == IF k = r THEN idx[k] < N - 1 ELSE idx[k] < idx[k + 1] - 1
HasNext == IF fresh THEN N > 0 /\ r > 0 ELSE r > 0 /\ \E k \in 1..r : Grows(k)
Succ == IF fresh THEN [k \in 1..r |-> k - 1]
        ELSE LET p == IF Grows(r) THEN r ELSE MaxSet({k \in 1..r : Grows(k)})
             IN  [k \in 1..r |-> IF k < p THEN idx[k] ELSE idx[p] + 1 + (k - p)]
Step == /\ HasNext
        /\ idx' = Succ
        /\ LET base == IF fresh THEN cur ELSE FlipSet(cur, SeqToSet(idx))
           IN  cur' = FlipSet(base, SeqToSet(Succ))
        /\ fresh' = FALSE /\ seen' = seen \cup {cur'}
        /\ UNCHANGED <<r, origin, restarts>>
Restart == /\ restarts < Histories /\ restarts' = restarts + 1
           /\ fresh' = TRUE /\ origin' = cur /\ seen' = {} /\ UNCHANGED <<r, cur, idx>>
SetOrigin == /\ restarts < Histories /\ restarts' = restarts + 1
             /\ \E x \in {origin, [k \in 1..N |-> 1 - origin[k]]} :
                  cur' = x /\ origin' = x /\ fresh' = TRUE /\ seen' = {} /\ UNCHANGED <<r, idx>>
Next == Step \/ Restart \/ SetOrigin

T == Target("sphere", N, r, origin)
Refines == /\ seen \subseteq T
           /\ HasNext <=> (seen # T)
           /\ Cardinality(T) = TargetSize("sphere", N, r)
           /\ \A x \in T : InTarget("sphere", N, r, origin, x)
NeverRepeats == [][Step => cur' \notin seen]_vars
=============================================================================
