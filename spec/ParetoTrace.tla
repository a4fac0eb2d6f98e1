----------------------------- MODULE ParetoTrace -----------------------------
(* Recorded rankings (C24) and multiobjective runs (C25).                    *)
EXTENDS Pareto, TraceLib
VARIABLES i, c, Ps, gens, seen, last, lost
vars == <<i, c, Ps, gens, seen, last, lost>>

Cap == 16
MaxPs == 60
Pair(xs, vs) == [k \in DOMAIN xs |-> <<xs[k], vs[k]>>]
Same == UNCHANGED <<c, Ps, gens, seen, last, lost>>
Near(a, num, den, tol) == Abs(a * den - num) <= tol

MutuallyOk(s) == \A a, b \in SeqToSet(s) : ~Dominates(a[2], b[2])

Step(r) ==
  CASE r.e = "dom"   -> r.ab = Dominates(r.a, r.b) /\ r.ba = Dominates(r.b, r.a) /\ Same
    [] r.e = "rank"  -> /\ IF Len(r.vs) > 40 THEN NumbersOk(r.vs, r.fronts)
                           ELSE LET fr == Fronts(r.vs) IN \A k \in DOMAIN r.vs : r.fronts[k] = FrontNumber(fr, k)
                        /\ Same
    [] r.e = "begin" -> c' = r.c /\ Ps' = {} /\ gens' = -1 /\ seen' = {} /\ last' = <<>> /\ lost' = FALSE
    [] r.e = "gen"   -> /\ Len(r.xs) = c.N
                        /\ c' = c /\ gens' = gens + 1
                        /\ seen' = seen \cup SeqToSet(Pair(r.xs, r.vs))
                        /\ IF c.loose \/ lost THEN Ps' = {} /\ lost' = lost
                           ELSE IF gens >= 0 /\ Hopeless(c, Ps, r.xs, r.vs, Cap)
                           THEN Ps' = {} /\ lost' = TRUE /\ (\E P \in Ps : Spawn(c, P, r.xs)) = TRUE
                           ELSE LET Q == IF gens = -1 THEN {Ranked1(r.xs, r.vs)} ELSE Step1(c, Ps, r.xs, r.vs, Cap)
                                IN  \* too many possibilities: the rest of this run is followed loosely
                                    /\ Q # {}
                                    /\ lost' = (Cardinality(Q) > MaxPs)
                                    /\ Ps' = (IF lost' THEN {} ELSE Q)
                        /\ last' = Pair(r.xs, r.vs)
    [] r.e = "final" -> /\ gens = r.gens
                        /\ MutuallyOk(r.sols)
                        /\ r.sols # <<>> /\ Len(r.sols) <= c.N
                        /\ \A a \in SeqToSet(last), b \in SeqToSet(r.sols) : ~Dominates(a[2], b[2])
                        /\ SeqToSet(r.sols) \subseteq seen
                        \* with two objectives the extremes are never lost
                        /\ (c.m = 1 \/ (c.m = 2 /\ c.N >= 4)) => \A k \in 1..c.m : \E b \in SeqToSet(r.sols) : \A a \in seen : b[2][k] <= a[2][k]
                        /\ c.loose \/ lost \/ \E P \in Ps : Answer(P) = BagOfSeq(r.sols)
                        /\ Same
    \* mean number, within tol: |a * den - num| <= tol
    [] r.e = "stat"  -> Near(r.a, r.num, r.den, r.tol) /\ Same
    [] r.e = "flag"  -> r.ok /\ Same
    [] r.e = "refused" -> r.bad = r.thrown /\ Same
    [] OTHER -> FALSE

Init == i = 1 /\ c = [N |-> 0] /\ Ps = {} /\ gens = -1 /\ seen = {} /\ last = <<>> /\ lost = FALSE
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
