----------------------------- MODULE MomentTrace ------------------------------
(* Recorded moments, samplers and runs (C22).                                 *)
EXTENDS Moment, TraceLib
VARIABLES i, c, S, time, count, X, st
vars == <<i, c, S, time, count, X, st>>
Pair(xs, vs) == [k \in DOMAIN xs |-> <<xs[k], vs[k]>>]
Same == UNCHANGED <<c, S, time, count, X, st>>

Square(A, n) == Len(A) = n /\ \A k \in 1..n : Len(A[k]) = n
\* the logged lines agree with the target T reached from target t with the samples h
HeaLog(r, t, T, h) ==
  IF c.show THEN r.log = T
  ELSE /\ Close(r.err, ISqrt(16 * NormSq(Delta(c.D, t, h.time, h.count))), 2)
       /\ Close(r.tnorm, ISqrt(16 * NormSq(t)), 2)
       /\ Close(r.dnorm, ISqrt(16 * NormSq(h.delta)), 2)
BmLog(r, th) == Close(r.inf, NormInf(th), r.tol) /\ Close(r.one, Norm1(th), r.tol)

\* with no model: the law of the difference of two successive points of the
\* chain, started anew in between or not, one step (or cycle) per point
MoveLaw(n, mode, anew, x) ==
  IF anew \/ mode # 0 THEN Unit \div Pow2(n)
  ELSE IF x = 0 THEN Unit \div 2
  ELSE IF Weight(BvOf(x, n)) = 1 THEN Unit \div (2 * n) ELSE 0

Ops(r) ==
  CASE r.op = "init"  -> r.out = Zero(r.n)
    [] r.op = "sum"   -> Square(r.out, r.n) /\ SameLower(r.out, MomentSum(r.n, r.xs))
    \* in units of 2^-20
    [] r.op = "average" -> /\ Symmetric(r.out)
                           /\ LET M == MomentSum(r.n, r.xs) IN
                              \A a, b \in 1..r.n : /\ Close(r.out[a][b], (M[a][b] * 1048576) \div Len(r.xs), 1)
                                                   /\ Abs(r.out[a][b]) <= 1048576
    [] r.op = "toward" -> r.out = Lin(8 - r.rate, r.a, r.rate, r.b)
    [] r.op = "away"  -> r.out = Lin(8, r.a, r.rate, Lin(1, r.b, -1, r.c))
    [] r.op = "scaled" -> r.out = Lin(r.lambda, r.a, -4, r.b)
    [] r.op = "bound" -> r.out = Clamp(r.a, 64 - r.margin)
    [] r.op = "norms" -> r.one = Norm1(r.a) /\ r.inf = NormInf(r.a) /\ IsNorm(r.two, r.a) /\ IsNorm(r.dist, Lin(1, r.a, -1, r.b))
    [] r.op = "shown" -> r.out = r.a
    [] OTHER -> FALSE

\* targets that explain a generation of the herding algorithm
HeaAll(r) ==
  LET reset == c.period > 0 /\ r.g % c.period = 0
      t0 == IF reset THEN 0 ELSE time
      k0 == IF reset THEN Zero(c.n) ELSE count
      gen == Pair(r.xs, r.vs)
  IN  UNION {LET h == HerdAll(c, t, t0, k0, r.xs, 1)
             IN  IF h.ok THEN {[t |-> T, h |-> h] : T \in {U \in HeaTargets(c, t, gen) : HeaLog(r, t, U, h)}} ELSE {} : t \in S}

Step(r) ==
  CASE r.e = "op" -> Ops(r) = TRUE /\ Same
    [] r.e = "herd0" -> c' = r.c /\ time' = 0 /\ count' = Zero(r.c.n) /\ UNCHANGED <<S, X, st>>
    [] r.e = "herd" -> LET d == Delta(c.D, r.target, time + 1, count) IN
                       /\ Herds(c.n, d, c.randomized, r.x) = TRUE
                       /\ r.delta = d
                       /\ time' = time + 1 /\ count' = AddPoint(count, r.x)
                       /\ Close(r.err, ISqrt(16 * NormSq(Delta(c.D, r.target, time', count'))), 2)
                       /\ UNCHANGED <<c, S, X, st>>
    [] r.e = "hea0" -> c' = r.c /\ S' = {Zero(r.c.n)} /\ time' = 0 /\ count' = Zero(r.c.n) /\ UNCHANGED <<X, st>>
    [] r.e = "hea"  -> /\ Len(r.xs) = c.N
                       /\ LET H == HeaAll(r) IN
                          /\ H # {}
                          /\ S' = {q.t : q \in H}
                          /\ LET h == (CHOOSE q \in H : TRUE).h IN time' = h.time /\ count' = h.count
                       /\ UNCHANGED <<c, X, st>>
    [] r.e = "bm0"  -> c' = r.c /\ S' = {Zero(r.c.n)} /\ X' = Everywhere(r.c.n) /\ UNCHANGED <<time, count, st>>
    [] r.e = "bm"   -> LET ok == {th \in S : BmWalk(c, th, X, r.xs, 1) # {}} IN
                       /\ Len(r.xs) = c.N
                       /\ ok # {}
                       /\ S' = {U \in UNION {BmParams(c, th, Pair(r.xs, r.vs)) : th \in ok} : BmLog(r, U)}
                       /\ S' # {}
                       /\ X' = {r.xs[Len(r.xs)]}
                       /\ UNCHANGED <<c, time, count, st>>
    \* one update of a sampler: fields in halves
    [] r.e = "gibbs" -> /\ IF r.i > 0
                           THEN /\ (\A k \in 1..r.n : k # r.i => BitOf(r.y, k) = BitOf(r.x, k)) = TRUE
                                /\ BitOf(r.y, r.i) \in CanBe(r.th, r.x, r.i, 40)
                                /\ st' = Observe1(st, BitOf(r.y, r.i), ProbOne(Field(r.th, r.x, r.i)))
                           ELSE /\ \A k \in 1..r.n : BitOf(r.y, k) \in CanBe(r.th, r.x, k, 40)
                                /\ st' = FoldLeft(LAMBDA a, k : Observe1(a, BitOf(r.y, k), ProbOne(Field(r.th, r.x, k))), st, [k \in 1..r.n |-> k])
                        /\ UNCHANGED <<c, S, time, count, X>>
    [] r.e = "fair" -> Fair(st) /\ st' = NoStat /\ UNCHANGED <<c, S, time, count, X>>
    [] r.e = "flat" -> (\A x \in DOMAIN r.cnt : Follows(r.cnt[x], Total(r.cnt), Unit \div Len(r.cnt))) /\ Same
    [] r.e = "moves" -> /\ (\A x \in 0..(Pow2(r.n) - 1) :
                               /\ Follows(r.within[x + 1], r.G * (r.N - 1), MoveLaw(r.n, r.mode, r.reset = 2, x))
                               /\ Follows(r.across[x + 1], r.G - 1, MoveLaw(r.n, r.mode, r.reset # 0, x))) = TRUE
                        /\ Same
    [] OTHER -> FALSE

Init == i = 1 /\ c = [n |-> 0] /\ S = {} /\ time = 0 /\ count = <<>> /\ X = {} /\ st = NoStat
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
