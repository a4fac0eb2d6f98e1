--------------------------------- MODULE Eda ---------------------------------
(* Distribution-learning algorithms: how a generation, ranked by value,      *)
(* changes the model.  Probabilities and rates are integers over Unit.       *)
(* A generation is a sequence of pairs <<x, v>>: points are numbers whose    *)
(* binary digits are the bits.                                               *)
EXTENDS Bits

Unit == 1000000
BitOf(x, i) == (x \div Pow2(i - 1)) % 2
Close(a, b, tol) == Abs(a - b) <= tol

\* margins 1/n
Lower(n) == Unit \div n
Upper(n) == Unit - Lower(n)
Bounded(p, n) == Max2(Lower(n), Min2(Upper(n), p))

---------------------------------------------------------------------------
(* Selections: index sets of the m best (worst) of a generation.  Ties at    *)
(* the border may be resolved in any way; equal individuals make no          *)
(* difference, so that representatives by number of copies are enough.       *)
Top(gen, m) ==
  LET D == DOMAIN gen
      sure == {i \in D : Cardinality({j \in D : gen[j][2] >= gen[i][2]}) <= m}
      brink == {i \in D \ sure : Cardinality({j \in D : gen[j][2] > gen[i][2]}) < m}
      room == m - Cardinality(sure)
  IN  IF Cardinality({gen[i][1] : i \in brink}) <= 1
      THEN {sure \cup (CHOOSE S \in {Q \in {{j \in brink : Cardinality({k \in brink : k <= j}) <= room}} : TRUE} : TRUE)}
      ELSE {sure \cup S : S \in kSubset(room, brink)}
Negated(gen) == [i \in DOMAIN gen |-> <<gen[i][1], -gen[i][2]>>]
Bottom(gen, m) == Top(Negated(gen), m)

CountOnes(gen, S, i) == Cardinality({j \in S : BitOf(gen[j][1], i) = 1})
Mean(gen, S, i, m) == (CountOnes(gen, S, i) * Unit) \div m

\* moving p toward q by rate (in thousandths)
Toward(p, q, rate) == p + ((q - p) \div 1000) * rate + (((q - p) % 1000) * rate) \div 1000

---------------------------------------------------------------------------
(* Probability vectors.  c: alg, n, N, m (selected), rate (thousandths), dim  *)
(* (dimension: larger than n if only n components are followed).             *)
Uniform(n) == [i \in 1..n |-> Unit \div 2]

\* possible new vectors
PvNext(c, pv, gen) ==
  CASE c.alg = "umda" -> {[i \in 1..c.n |-> Bounded(Mean(gen, S, i, c.m), c.dim)] : S \in Top(gen, c.m)}
    [] c.alg = "pbil" -> {[i \in 1..c.n |-> Bounded(Toward(pv[i], Mean(gen, S, i, c.m), c.rate), c.dim)] : S \in Top(gen, c.m)}
    [] c.alg = "nps"  -> {[i \in 1..c.n |-> Bounded(pv[i] + Toward(0, Mean(gen, S, i, c.m) - Mean(gen, W, i, c.m), c.rate), c.dim)] :
                            S \in Top(gen, c.m), W \in Bottom(gen, c.m)}
    [] c.alg = "cga"  -> {[i \in 1..c.n |-> Bounded(pv[i] + (BitOf(gen[b][1], i) - BitOf(gen[3 - b][1], i)) * c.rate * 1000, c.dim)] :
                            b \in {q \in 1..2 : gen[q][2] >= gen[3 - q][2]}}
Toward1(c, pv, x) == [i \in 1..c.n |-> Bounded(Toward(pv[i], BitOf(x, i) * Unit, c.rate), c.dim)]

SameVector(p, q, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Close(p[i], q[i], tol)

---------------------------------------------------------------------------
(* Statistics of sampling: for bits whose probability is at least (below)    *)
(* one half, the sum of bit minus probability, and its variance.             *)
NoStat == [d1 |-> 0, v1 |-> 0, d2 |-> 0, v2 |-> 0]
Observe1(st, bit, p) ==
  LET q == p \div 1000
      d == bit * 1000 - q
      v == (q * (1000 - q)) \div 1000
  IN  IF p >= Unit \div 2 THEN [st EXCEPT !.d1 = @ + d, !.v1 = @ + v] ELSE [st EXCEPT !.d2 = @ + d, !.v2 = @ + v]
ObservePoint(st, x, pv) == FoldLeft(LAMBDA a, i : Observe1(a, BitOf(x, i), pv[i]), st, [i \in 1..Len(pv) |-> i])
RECURSIVE Observe(_, _, _, _)
Observe(st, gen, pv, j) == IF j > Len(gen) THEN st ELSE Observe(ObservePoint(st, gen[j][1], pv), gen, pv, j + 1)
\* within seven standard deviations (and the rounding of probabilities)
Fair1(d, v) == LET e == Abs(d) \div 1000
                   w == v \div 1000
               IN  e <= 3 + (w \div 200) \/ e * e <= 49 * (w + 1)
Fair(st) == Fair1(st.d1, st.v1) /\ Fair1(st.d2, st.v2)

---------------------------------------------------------------------------
(* Counted generations: how many individuals are each point of 0..2^n-1.     *)
(* vals gives the value of each point, all different.                        *)
Total(cnt) == Sum(cnt)
\* how many copies of each point are among the m best
Selected(cnt, vals, m) ==
  [x \in DOMAIN cnt |->
     LET above == FoldSet(LAMBDA y, a : a + cnt[y], 0, {y \in DOMAIN cnt : vals[y] > vals[x]})
     IN  Max2(0, Min2(cnt[x], m - above))]

\* bits of a linear image: rows is a sequence of n subsets of positions (masks as numbers), b offsets
Parity(u) == Sum(BvOf(u, 8)) % 2
RECURSIVE AndMask(_, _)
AndMask(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * AndMask(a \div 2, b \div 2)
Image(rows, b, x) == [i \in DOMAIN rows |-> (Parity(AndMask(rows[i], x)) + b[i]) % 2]

RECURSIVE XorMask(_, _)
XorMask(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorMask(a \div 2, b \div 2)
Identity(n) == [i \in 1..n |-> Pow2(i - 1)]
\* add row j to row i
Transvect(rows, i, j) == [rows EXCEPT ![i] = XorMask(@, rows[j])]
RECURSIVE Products(_, _)
Products(n, t) == IF t = 0 THEN {Identity(n)}
                  ELSE {Transvect(A, ij[1], ij[2]) : A \in Products(n, t - 1), ij \in {q \in (1..n) \X (1..n) : q[1] # q[2]}}

MeanImage(sel, rows, b, i, m) ==
  (FoldSet(LAMBDA x, a : a + sel[x] * Image(rows, b, x - 1)[i], 0, DOMAIN sel) * 1000) \div m

\* probability of a pattern, in thousandths, of a product law pv (in Units)
RECURSIVE ProductLaw(_, _, _)
ProductLaw(pv, y, k) == IF k = 0 THEN 1000000
                        ELSE (ProductLaw(pv, y, k - 1) \div 1000) * ((IF y[k] = 1 THEN pv[k] ELSE Unit - pv[k]) \div 1000)
\* counts follow the law within six standard deviations: |c - N p| <= 6 sqrt(N p (1 - p)) + rounding
Follows(c, N, p) == LET dv == Abs(c - (N * (p \div 1000)) \div 1000)
                    IN  dv <= 8 + N \div 200 \/ dv * dv <= 36 * ((N * (p \div 1000)) \div 1000 + 2)

\* a latent model of the selected points explains the vector pv and the next generation
Explains(n, rows, b, sel, m, pv, nxt) ==
  /\ \A i \in 1..n : Close(pv[i] \div 1000, Max2(1000 \div n, Min2(1000 - (1000 \div n), MeanImage(sel, rows, b, i, m))), 2)
  /\ \A y \in {BvOf(u, n) : u \in 0..(Pow2(n) - 1)} :
        Follows(FoldSet(LAMBDA x, a : a + (IF Image(rows, b, x - 1) = y THEN nxt[x] ELSE 0), 0, DOMAIN nxt),
                Total(nxt), ProductLaw(pv, y, n))

---------------------------------------------------------------------------
(* Chains (MIMIC).  Logarithms by repeated squaring, over 4096.              *)
RECURSIVE LogBits(_, _, _)
LogBits(mant, k, acc) == IF k = 0 THEN acc
  ELSE LET s == (mant * mant) \div 16384 IN IF s >= 32768 THEN LogBits(s \div 2, k - 1, 2 * acc + 1) ELSE LogBits(s, k - 1, 2 * acc)
RECURSIVE Norm(_, _)
Norm(mant, e) == IF mant >= 32768 THEN Norm(mant \div 2, e + 1) ELSE IF mant < 16384 THEN Norm(mant * 2, e - 1) ELSE <<mant, e>>
Log2(k) == LET q == Norm(k, 14) IN q[2] * 4096 + LogBits(q[1], 12, 0)

Joint(sel, n, i, j, a, b) == FoldSet(LAMBDA x, acc : acc + sel[x], 0, {x \in DOMAIN sel : BitOf(x - 1, i) = a /\ BitOf(x - 1, j) = b})
Ones1(sel, i) == FoldSet(LAMBDA x, acc : acc + sel[x], 0, {x \in DOMAIN sel : BitOf(x - 1, i) = 1})
XLog(t, c) == IF t = 0 THEN 0 ELSE t * (Log2(c) - Log2(t))
CondEntropy(sel, n, i, j) ==
  LET row(a) == LET t0 == Joint(sel, n, i, j, a, 0)
                    t1 == Joint(sel, n, i, j, a, 1)
                IN  XLog(t0, t0 + t1) + XLog(t1, t0 + t1)
  IN  row(0) + row(1)
\* chains: the root has the probability closest to 0 or 1, each next one the least conditional entropy
RECURSIVE Grow(_, _, _, _)
Grow(sel, n, chain, m) ==
  IF Len(chain) = n THEN {chain}
  ELSE LET left == (1..n) \ SeqToSet(chain)
           h(j) == CondEntropy(sel, n, chain[Len(chain)], j)
           best == MinSet({h(j) : j \in left})
       IN  UNION {Grow(sel, n, Append(chain, j), m) : j \in {k \in left : h(k) <= best + 4 * m}}
Chains(sel, n, m) ==
  LET sharp(i) == Min2(Ones1(sel, i), m - Ones1(sel, i))
      best == MinSet({sharp(i) : i \in 1..n})
  IN  UNION {Grow(sel, n, <<i>>, m) : i \in {k \in 1..n : sharp(k) = best}}
Cond(sel, n, i, j, a) == LET t0 == Joint(sel, n, i, j, a, 0)
                             t1 == Joint(sel, n, i, j, a, 1)
                         IN  Bounded(IF t0 + t1 = 0 THEN Unit \div 2 ELSE ((t1 * 1000) \div (t0 + t1)) * 1000, n)
RECURSIVE ChainLaw(_, _, _, _, _, _)
ChainLaw(sel, n, chain, m, x, k) ==
  LET p1 == IF k = 1 THEN Bounded(((Ones1(sel, chain[1]) * 1000) \div m) * 1000, n)
            ELSE Cond(sel, n, chain[k - 1], chain[k], BitOf(x, chain[k - 1]))
      q == IF BitOf(x, chain[k]) = 1 THEN p1 ELSE Unit - p1
  IN  IF k = 1 THEN q ELSE (ChainLaw(sel, n, chain, m, x, k - 1) \div 1000) * (q \div 1000)
ChainExplains(sel, n, chain, m, nxt) ==
  \A x \in DOMAIN nxt : Follows(nxt[x], Total(nxt), ChainLaw(sel, n, chain, m, x - 1, n))

---------------------------------------------------------------------------
(* Information-theoretic EA: a center and a mutation rate.  c: n, N, m, rate *)
(* (thousandths), lo, hi (Units), repl.  Individuals of the class of the     *)
(* last selected one share what is left of the selection.                    *)
WeightX(a, b, n) == Hamming(BvOf(a, n), BvOf(b, n))
ItClass(gen, m) ==
  LET D == DOMAIN gen
      v == CHOOSE u \in {gen[i][2] : i \in D} : Cardinality({j \in D : gen[j][2] > u}) < m /\ Cardinality({j \in D : gen[j][2] >= u}) >= m
  IN  [better |-> {i \in D : gen[i][2] > v}, same |-> {i \in D : gen[i][2] = v}]
\* sum over the selection of f(x), times the size of the class
ItSum(gen, m, f(_)) ==
  LET k == ItClass(gen, m)
      A == SumOver(k.better, LAMBDA i : f(gen[i][1]))
      B == SumOver(k.same, LAMBDA i : f(gen[i][1]))
  IN  A * Cardinality(k.same) + (m - Cardinality(k.better)) * B
ItClassSize(gen, m) == Cardinality(ItClass(gen, m).same)
ItTarget(c, gen, center) == LET w(x) == WeightX(x, center, c.n)
                            IN  (ItSum(gen, c.m, w) * Unit) \div (ItClassSize(gen, c.m) * c.m * c.n)
ItRate(c, rate, gen, center) == Max2(c.lo, Min2(c.hi, Toward(rate, ItTarget(c, gen, center), c.rate)))
\* majority of the selection at bit i, relative to one half: sign of 2 L - m
ItVote(c, gen, g(_)) == 2 * ItSum(gen, c.m, g) - c.m * ItClassSize(gen, c.m)
BestPairs(gen) == {gen[i] : i \in {j \in DOMAIN gen : \A k \in DOMAIN gen : gen[k][2] <= gen[j][2]}}

\* possible centers <<x, v>> after the generation; extra: additional evaluation, <<>> if none
\* low: the rate is less than one half
ItCentersAt(c, low, gen, center, extra) ==
  LET B == BestPairs(gen)
      vote(i) == LET g(x) == BitOf(x, i) IN ItVote(c, gen, g)
      diff(i) == LET g(x) == (BitOf(x, i) + BitOf(center[1], i)) % 2 IN ItVote(c, gen, g)
      sgn(a) == IF low THEN a ELSE -a
      lead == MaxSet({sgn(diff(i)) : i \in 1..c.n})
  IN  CASE c.repl = 0 -> IF extra # <<>> THEN {}
                         ELSE IF (CHOOSE b \in B : TRUE)[2] >= center[2] THEN B ELSE {center}
        [] c.repl = 1 -> IF extra # <<>> THEN {} ELSE B
        [] c.repl = 2 -> IF extra = <<>> THEN {}
                         ELSE IF \A i \in 1..c.n : LET s == sgn(vote(i)) IN s = 0 \/ BitOf(extra[1], i) = (IF s > 0 THEN 1 ELSE 0)
                              THEN {extra} ELSE {}
        [] c.repl = 3 -> IF extra = <<>> THEN (IF lead <= 0 THEN {center} ELSE {})
                         ELSE IF lead >= 0 /\ \E i \in 1..c.n : sgn(diff(i)) = lead /\ extra[1] = Index(FlipSet(BvOf(center[1], c.n), {i - 1}))
                              THEN {extra} ELSE {}
        [] c.repl = 4 -> IF extra # <<>> THEN {} ELSE {center}
\* rates are known up to rounding, so that one half may be either side
ItCenters(c, rate, gen, center, extra) ==
  UNION {ItCentersAt(c, low, gen, center, extra) :
           low \in IF Abs(rate - Unit \div 2) <= 4 THEN {TRUE, FALSE} ELSE {rate < Unit \div 2}}
=============================================================================
