------------------------------ MODULE EdaTrace -------------------------------
(* Recorded generations and logged models of distribution-learning           *)
(* algorithms (C21).                                                         *)
EXTENDS Eda, TraceLib
VARIABLES i, c, pv, st, cs, aux
vars == <<i, c, pv, st, cs, aux>>
Tol == 4

Pair(xs, vs) == [k \in DOMAIN xs |-> <<xs[k], vs[k]>>]
Same == UNCHANGED <<c, pv, st, cs, aux>>

\* best of the points that may be the solution of mmas after seeing (x, v)
MmasSols(S, x, v, strict) == UNION {IF (strict /\ v > p[2]) \/ (~strict /\ v >= p[2]) THEN {<<x, v>>} ELSE {p} : p \in S}

\* transvection sequence length after generation g (from 0)
LengthsAt(k, g) ==
  CASE k.mode = 0 -> {k.t}
    [] k.mode = 1 -> {Min2(k.hi, k.t + (g + 1) \div k.period)}
    [] k.mode = 2 -> {Max2(k.lo, k.t - (g + 1) \div k.period)}
    [] k.mode = 4 -> 0..k.hi
    [] OTHER -> k.lo..k.hi
\* the state of the capped counter can differ from the closed form only outside of the bounds
AllProducts == [q \in (1..3) \X (0..5) |-> Products(q[1], q[2])]
Maps(n, k, g) == UNION {AllProducts[<<n, t>>] : t \in LengthsAt(k, g)}

Margin(n, t) == Max2(1000 \div n, Min2(1000 - (1000 \div n), t))
RamOk(r) ==
  LET sel == Selected(r.cnt, r.vals, r.m)
      M == Maps(r.n, r.k, r.g)
      B == BitVectors(r.n)
  IN  IF ~r.second
      THEN \E A \in M, b \in B : Explains(r.n, A, b, sel, r.m, r.pv, r.nxt)
      ELSE /\ \A q \in 1..r.n : Close(r.pv[q] \div 1000, Margin(r.n, (Ones1(sel, q) * 1000) \div r.m), 2)
           /\ CASE r.law = "pv" -> \A x \in DOMAIN r.nxt : Follows(r.nxt[x], Total(r.nxt), ProductLaw(r.pv, BvOf(x - 1, r.n), r.n))
                [] r.law = "marginal" -> \A q \in 1..r.n : Follows(Ones1(r.nxt, q), Total(r.nxt), r.pv[q])
                [] r.law = "latent" -> \E A \in M, b \in B :
                      LET lp == [q \in 1..r.n |-> 1000 * Margin(r.n, MeanImage(sel, A, b, q, r.m))]
                      IN  Explains(r.n, A, b, sel, r.m, lp, r.nxt)
MimicOk(r) ==
  LET sel == Selected(r.cnt, r.vals, r.m)
  IN  \E ch \in Chains(sel, r.n, r.m) : ChainExplains(sel, r.n, ch, r.m, r.nxt)
PvOk(gen, q) == \E p \in PvNext(c, pv, gen) : SameVector(p, q, Tol)

Step(r) ==
  CASE r.e = "begin" -> /\ c' = r.c
                        /\ pv' = (IF r.c.alg = "mmas" THEN Toward1(r.c, Uniform(r.c.n), r.x) ELSE Uniform(r.c.n))
                        /\ cs' = {<<r.x, r.v>>} /\ UNCHANGED <<st, aux>>
    [] r.e = "gen" ->   /\ LET gen == Pair(r.xs, r.vs)
                           IN  /\ Len(r.xs) = c.N
                               /\ st' = Observe(st, gen, pv, 1)
                               /\ IF c.alg = "mmas"
                                  THEN /\ cs' = {p \in MmasSols(cs, r.xs[1], r.vs[1], c.strict) : SameVector(Toward1(c, pv, p[1]), r.pv, Tol)}
                                       /\ cs' # {}
                                  ELSE /\ PvOk(gen, r.pv) = TRUE
                                       /\ cs' = cs
                        /\ \A k \in 1..c.n : r.pv[k] >= Lower(c.dim) - 1 /\ r.pv[k] <= Upper(c.dim) + 1
                        /\ pv' = r.pv /\ UNCHANGED <<c, aux>>
    [] r.e = "fair" ->  Fair(st) /\ st' = NoStat /\ UNCHANGED <<c, pv, cs, aux>>
    \* entropy of the logged vector, both in Units; h(q) given for the vectors of the scenario
    [] r.e = "entropy" -> Close(r.h, Sum(r.hs), 8) /\ Same
    [] r.e = "pvop" ->  /\ CASE r.op = "uniform" -> \A k \in DOMAIN r.out : r.out[k] = Unit \div 2
                             [] r.op = "init"    -> \A k \in DOMAIN r.out : r.out[k] = 0
                             [] r.op = "add"     -> \A k \in DOMAIN r.out : Close(r.out[k], r.a[k] + r.w * r.b[k], 1)
                             [] r.op = "average" -> \A k \in DOMAIN r.out : Close(r.out[k] * r.m, r.a[k], r.m)
                             [] r.op = "toward"  -> \A k \in DOMAIN r.out : Close(r.out[k], Toward(r.a[k], r.b[k], r.rate), 2)
                             [] r.op = "away"    -> \A k \in DOMAIN r.out : Close(r.out[k], r.a[k] + Toward(0, r.b[k] - r.c[k], r.rate), 2)
                             [] r.op = "bound"   -> \A k \in DOMAIN r.out : r.out[k] = Max2(r.lo, Min2(r.hi, r.a[k]))
                        /\ Same
    \* counts proportional to weights, within tol per cent of the total
    [] r.e = "freq"  -> /\ LET W == Sum(r.w)
                               C == Sum(r.c)
                           IN  \A k \in DOMAIN r.w : Abs(r.c[k] * W - C * r.w[k]) * 100 <= r.tol * C * W
                        /\ Same
    \* latent models
    [] r.e = "ram"   -> RamOk(r) = TRUE /\ Same
    [] r.e = "mimic" -> MimicOk(r) = TRUE /\ Same
    \* every point equally likely
    [] r.e = "flat"  -> /\ \A x \in DOMAIN r.cnt : Follows(r.cnt[x], Total(r.cnt), Unit \div Len(r.cnt))
                        /\ Same
    \* information-theoretic EA
    [] r.e = "itbegin" -> /\ c' = r.c /\ cs' = {<<r.x, r.v>>} /\ aux' = r.rate
                          /\ (r.c.repl = 4 => Weight(BvOf(r.x, r.c.n)) = r.c.hw)
                          /\ UNCHANGED <<pv, st>>
    [] r.e = "itgen" -> /\ Len(r.xs) = c.N
                        /\ LET gen == Pair(r.xs, r.vs)
                               from == {p \in cs : Close(ItRate(c, aux, gen, p[1]), r.rate, Tol) /\ (c.allow \/ \A k \in DOMAIN gen : gen[k][1] # p[1])}
                           IN  /\ cs' = {q \in UNION {ItCenters(c, aux, gen, p, r.extra) : p \in from} : q[2] = r.fit}
                               /\ cs' # {}
                               /\ st' = (IF c.allow /\ Cardinality(cs) = 1
                                         THEN Observe(st, [k \in DOMAIN gen |-> <<XorMask(gen[k][1], (CHOOSE p \in cs : TRUE)[1]), 0>>], [q \in 1..c.n |-> aux], 1)
                                         ELSE st)
                        /\ aux' = r.rate /\ UNCHANGED <<c, pv>>
    \* two-rate EA: rates in powers of two; follow counts how often the best half decided
    [] r.e = "trbegin" -> c' = r.c /\ aux' = r.rate /\ cs' = {<<r.x, r.v>>} /\ UNCHANGED <<pv, st>>
    [] r.e = "trgen" -> /\ Len(r.xs) = c.N
                        /\ LET gen == Pair(r.xs, r.vs)
                               B == BestPairs(gen)
                               low == Max2(c.lo, Min2(c.hi, aux \div 2))
                               high == Max2(c.lo, Min2(c.hi, 2 * aux))
                               half == {IF k <= c.N \div 2 THEN 1 ELSE 2 : k \in {j \in DOMAIN gen : gen[j] \in B}}
                           IN  /\ r.rate \in {low, high}
                               /\ (\E p \in cs : \A k \in DOMAIN gen : c.allow \/ gen[k][1] # p[1]) = TRUE
                               /\ cs' = UNION {IF (CHOOSE b \in B : TRUE)[2] > p[2] THEN B ELSE {p} : p \in cs}
                               /\ st' = (IF low # high /\ Cardinality(half) = 1
                                         THEN Observe1(st, IF r.rate = (IF half = {1} THEN low ELSE high) THEN 1 ELSE 0, (3 * Unit) \div 4)
                                         ELSE st)
                        /\ aux' = r.rate /\ UNCHANGED <<c, pv>>
    \* mean number of flips per offspring of each half: |a * den - num| <= tol
    [] r.e = "stat"  -> Abs(r.a * r.den - r.num) <= r.tol /\ Same
    [] OTHER -> FALSE

Init == i = 1 /\ c = [alg |-> "none"] /\ pv = <<>> /\ st = NoStat /\ cs = {} /\ aux = 0
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
