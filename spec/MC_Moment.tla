------------------------------ MODULE MC_Moment -------------------------------
(* Herding on its own: all targets (in quarters) of n bits, any order of the  *)
(* bits at each step; and the herding and Boltzmann-machine updates on every  *)
(* small generation.                                                          *)
EXTENDS Moment
CONSTANTS n, MaxTime
VARIABLES target, time, count, last
vars == <<target, time, count, last>>
D == 4
Points == Everywhere(n)
Half == {-4, -2, 0, 1, 3, 4}
Sym(f, s) == Mat(n, LAMBDA i, j : IF i = j THEN f[i] ELSE s[{i, j}])
Targets == {Sym(f, s) : f \in [1..n -> Half], s \in [{{i, j} : i, j \in 1..n} \ {{i} : i \in 1..n} -> {-4, 0, 3}]}
PointMoment(x) == Mat(n, LAMBDA i, j : D * Ent(x, i, j))

Init == target \in (Targets \cup {PointMoment(x) : x \in Points}) /\ time = 0 /\ count = Zero(n) /\ last = 0
Sample(x) == /\ time < MaxTime
             /\ Herds(n, Delta(D, target, time + 1, count), TRUE, x)
             /\ time' = time + 1 /\ count' = AddPoint(count, x) /\ last' = x /\ UNCHANGED target
Next == \E x \in Points : Sample(x)
Spec == Init /\ [][Next]_vars

\* counts are those of time points
Counted == /\ Symmetric(count)
           /\ \A i, j \in 1..n : Abs(count[i][j]) <= time /\ (count[i][j] - time) % 2 = 0
\* some point can always be sampled, and only one when the order is fixed
CanGoOn == LET d == Delta(D, target, time + 1, count) IN
           /\ \E x \in Points : Herds(n, d, TRUE, x)
           /\ Cardinality({x \in Points : Herds(n, d, FALSE, x)}) = 1
           /\ \A x \in Points : Herds(n, d, FALSE, x) => Herds(n, d, TRUE, x)
           /\ (time <= 1 \/ n < 3) => \A x \in Points : Herds(n, d, TRUE, x) = HerdsInOrder(n, d, x)
\* the moment of a single point gives that point for ever
PointIsKept == \A x \in Points : (target = PointMoment(x) /\ time > 0) => last = x /\ NormSq(Delta(D, target, time, count)) = 0

Gens == [1..2 -> Points]
Cfg == [n |-> n, N |-> 2, m |-> 1, r |-> 1, R |-> 2, D |-> D, b |-> 1, bounded |-> TRUE]
Bm == [n |-> n, N |-> 2, m |-> 1, r |-> 1, R |-> 1, D |-> 2, nps |-> FALSE]
Updates == time = 0 => \A xs \in Gens :
  LET gen == [k \in 1..2 |-> <<xs[k], xs[k]>>] IN
  /\ \A T \in HeaTargets(Cfg, target, gen) : Symmetric(T) /\ NormInf(T) <= D - 1
  /\ \A T \in BmParams(Bm, Zero(n), gen) : Symmetric(T) /\ NormInf(T) <= 2 * 2
  /\ \A T \in BmParams([Bm EXCEPT !.nps = TRUE], Zero(n), gen) : Symmetric(T) /\ NormInf(T) <= 2 * 2
\* chains never stop, and without a model they go everywhere
Chain == time = 0 => \A x \in Points :
  /\ \A mode \in 0..2 : Sampled([mode |-> mode, steps |-> 2, cycles |-> 1], target, {x}, 1) # {}
  /\ Scans(Zero(n), {x}, 1, 1) = Points /\ Syncs(Zero(n), {x}, 1, 1) = Points /\ Steps(Zero(n), {x}, 1, n) = Points
  \* a scan is n single steps
  /\ Scans(target, {x}, 1, 1) \subseteq Steps(target, {x}, 1, n)
ASSUME \A z \in -16..16 : ProbOne(z) + ProbOne(-z) = Unit
ASSUME \A s \in 0..200 : ISqrt(s) * ISqrt(s) <= s /\ (ISqrt(s) + 1) * (ISqrt(s) + 1) > s
=============================================================================
