------------------------------ MODULE Evolution ------------------------------
(* Populations: sequences of individuals <<point, value>>.  Ranking,         *)
(* selection for replacement, tournaments, crossover, and the generations of *)
(* the evolutionary algorithms.  Where ties leave a choice these are         *)
(* relations between what goes in and what comes out.                        *)
EXTENDS Bits

IsPerm(p, n) == Len(p) = n /\ {p[k] : k \in 1..n} = 0..(n - 1)

\* perm lists indices by decreasing value, up to m; what follows is no better
Ranked(vals, perm, m) ==
  /\ IsPerm(perm, Len(vals))
  /\ \A k \in 1..(m - 1) : vals[perm[k] + 1] >= vals[perm[k + 1] + 1]
  /\ \A k \in (m + 1)..Len(vals) : vals[perm[k] + 1] <= vals[perm[m] + 1]

\* the class of the index-th best among the ranked ones, as a half-open range
ClassOf(vals, perm, index) ==
  LET v == vals[perm[index + 1] + 1]
  IN  <<Cardinality({k \in DOMAIN vals : vals[k] > v}), Cardinality({k \in DOMAIN vals : vals[k] >= v})>>

Occurrences(s, e) == Cardinality({k \in DOMAIN s : s[k] = e})
Within(a, b) == \A e \in SeqToSet(a) : Occurrences(a, e) <= Occurrences(b, e)

SameBag(a, b) == Len(a) = Len(b) /\ Within(a, b)

\* out are the |out| best of pool, best first
BestOf(pool, out) ==
  /\ Within(out, pool)
  /\ \A k \in 1..(Len(out) - 1) : out[k][2] >= out[k + 1][2]
  /\ \A e \in SeqToSet(pool) : Occurrences(pool, e) > Occurrences(out, e) => e[2] <= out[Len(out)][2]

\* the largest values of a pool of values, in decreasing order (distinct points with distinct values)
SortedDown(pool) == SortSeq(pool, LAMBDA a, b : a[2] > b[2])
TakeBest(pool, m) == SubSeq(SortedDown(pool), 1, m)

\* tournaments without replacement among vals (1-based indices): wins are the winners of disjoint
\* groups of size k
Disjoint(vals, k, wins) ==
  LET W == SeqToSet(wins)
      rank(w) == Cardinality({j \in DOMAIN wins : vals[wins[j]] < vals[w] \/ (vals[wins[j]] = vals[w] /\ wins[j] <= w)})
  IN  /\ Distinct(wins) /\ W \subseteq DOMAIN vals
      /\ \A w \in W : Cardinality({j \in DOMAIN vals \ W : vals[j] <= vals[w]}) >= (k - 1) * rank(w)
Rounds(n, k) == n \div k

\* o takes each bit from p or from q
Crossed(p, q, o, n) == \A b \in 0..(n - 1) : LET bit(x) == (x \div Pow2(b)) % 2 IN bit(o) \in {bit(p), bit(q)}

Complement(x, n) == Pow2(n) - 1 - x
Changed(x, rate, n) == IF rate = 0 THEN x ELSE Complement(x, n)

---------------------------------------------------------------------------
(* Generations.  c: alg, n, mu, lambda, k (tournament), cross (0 or 100 per  *)
(* cent), rate (0: clones, 1: complements).  Values are distinct.            *)
Begin(c) == [c |-> c, pop |-> <<>>, off |-> <<>>, cur |-> {}, mid |-> {}, gens |-> 0]

Eligible(s) == {e \in SeqToSet(s.pop) :
                  Cardinality({j \in DOMAIN s.pop : s.pop[j][2] <= e[2]}) >= s.c.k}

Spawned(s, x) ==
  LET z == Changed(x, s.c.rate, s.c.n)
  IN  CASE s.c.alg = "plus"  -> \E e \in SeqToSet(s.pop) : e[1] = z
        [] s.c.alg = "comma" -> IF s.gens = 0 THEN TRUE ELSE \E e \in SeqToSet(s.pop) : e[1] = z
        [] s.c.alg = "ga"    -> \E p \in Eligible(s) : IF s.c.cross = 0 THEN p[1] = z ELSE \E q \in Eligible(s) : Crossed(p[1], q[1], z, s.c.n)

\* evaluations of the first generation of an algorithm that evaluates its parents
Filling(s) == s.c.alg \in {"plus", "ga"} /\ Len(s.pop) < s.c.mu
\* the comma strategy evaluates one random point which is not part of the population
Opening(s) == s.c.alg = "comma" /\ s.mid = {}

\* first generation of the comma strategy: at most mu distinct parents
FewParents(s) == Cardinality({e[1] : e \in SeqToSet(s.off)}) <= s.c.mu

PopLegal(s, x) == Filling(s) \/ Opening(s) \/ Spawned(s, x)
PopEval(s, x, v) ==
  IF Filling(s) THEN [s EXCEPT !.pop = Append(@, <<x, v>>)]
  ELSE IF Opening(s) THEN [s EXCEPT !.mid = {<<x, v>>}]
  ELSE LET off == Append(s.off, <<x, v>>)
       IN  IF Len(off) < s.c.lambda THEN [s EXCEPT !.off = off]
           ELSE [s EXCEPT !.off = <<>>, !.gens = @ + 1,
                          !.pop = TakeBest(IF s.c.alg = "plus" THEN s.pop \o off ELSE off, s.c.mu)]

(* The (1+(lambda,lambda)) algorithm: cur is the set of points that may be   *)
(* the parent, off the evaluations of the current generation.                *)
Dist(x, y, n) == Hamming(BvOf(x, n), BvOf(y, n))
Tops(off) == {e \in SeqToSet(off) : \A f \in SeqToSet(off) : f[2] <= e[2]}
LamParents(s, off) ==
  LET L == s.c.lambda
      n == s.c.n
      muts == SubSeq(off, 1, Min2(L, Len(off)))
      kids == SubSeq(off, L + 1, Len(off))
  IN  {p \in s.cur : /\ \A a, b \in DOMAIN muts : Dist(p[1], muts[a][1], n) = Dist(p[1], muts[b][1], n)
                     /\ (kids = <<>> \/ \E m \in Tops(muts) : \A k \in DOMAIN kids : Crossed(p[1], m[1], kids[k][1], n))}
LamLegal(s, x) == s.cur = {} \/ LamParents(s, Append(s.off, <<x, 0>>)) # {}
LamEval(s, x, v) ==
  IF s.cur = {} THEN [s EXCEPT !.cur = {<<x, v>>}]
  ELSE LET off == Append(s.off, <<x, v>>)
           S == LamParents(s, off)
           kids == SubSeq(off, s.c.lambda + 1, Len(off))
           t == Tops(kids)
       IN  IF Len(off) < 2 * s.c.lambda THEN [s EXCEPT !.off = off]
           ELSE [s EXCEPT !.off = <<>>, !.gens = @ + 1,
                          !.cur = UNION {IF (CHOOSE e \in t : TRUE)[2] >= p[2] THEN t ELSE {p} : p \in S}]

Legal(s, x) == IF s.c.alg = "lambda" THEN LamLegal(s, x) ELSE PopLegal(s, x)
Eval(s, x, v) == IF s.c.alg = "lambda" THEN LamEval(s, x, v) ELSE PopEval(s, x, v)
=============================================================================
