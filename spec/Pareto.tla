------------------------------- MODULE Pareto --------------------------------
(* Multiobjective minimization: domination, fronts, crowding, and the        *)
(* generations of NSGA-II.  An individual is a pair <<x, v>>: a point and    *)
(* its vector of objective values.                                           *)
EXTENDS Bits

Dominates(a, b) == /\ \A k \in DOMAIN a : a[k] <= b[k]
                   /\ \E k \in DOMAIN a : a[k] < b[k]

NonDominated(vals, S) == {i \in S : \A j \in S : ~Dominates(vals[j], vals[i])}

\* fronts of the values vals, as sets of indices
RECURSIVE Peel(_, _)
Peel(vals, S) == IF S = {} THEN <<>>
                 ELSE LET F == NonDominated(vals, S) IN <<F>> \o Peel(vals, S \ F)
Fronts(vals) == Peel(vals, DOMAIN vals)
FrontNumber(fronts, i) == (CHOOSE k \in DOMAIN fronts : i \in fronts[k]) - 1

\* the same number, as the length of the longest chain of dominators
RECURSIVE Chain(_, _)
Chain(vals, i) == LET D == {j \in DOMAIN vals : Dominates(vals[j], vals[i])}
                  IN  IF D = {} THEN 0 ELSE 1 + MaxSet({Chain(vals, j) : j \in D})

\* a numbering is that one exactly when each number follows from the dominators' ones
NumbersOk(vals, fr) == \A i \in DOMAIN vals :
  LET D == {fr[j] : j \in {k \in DOMAIN vals : Dominates(vals[k], vals[i])}}
  IN  fr[i] = (IF D = {} THEN 0 ELSE 1 + MaxSet(D))

---------------------------------------------------------------------------
(* Crowding.  Along each objective the two extremes of a front are at        *)
(* infinity, the others get the gap between their neighbors.  Among equal    *)
(* values the order is free: what matters is who comes first and last.       *)
INFTY == 100000000
Sat(a) == IF a > INFTY THEN INFTY ELSE a

GroupsOf(vals, F, k) == {{i \in F : vals[i][k] = c} : c \in {vals[i][k] : i \in F}}
ValueOf(vals, g, k) == vals[CHOOSE i \in g : TRUE][k]
\* possible <<first, last>> of a group
Ends(g) == IF Cardinality(g) = 1 THEN {<<CHOOSE i \in g : TRUE, CHOOSE i \in g : TRUE>>} ELSE {<<i, j>> \in g \X g : i # j}
NumEnds(g) == IF Cardinality(g) = 1 THEN 1 ELSE Cardinality(g) * (Cardinality(g) - 1)

NumOrders(vals, F, K) == FoldSet(LAMBDA k, acc : FoldSet(LAMBDA g, a : Min2(1000, a * NumEnds(g)), acc, GroupsOf(vals, F, k)), 1, K)

\* contributions of objective k to the members of F, one function per order
Gaps(vals, F, k) ==
  LET G == GroupsOf(vals, F, k)
      V == {ValueOf(vals, g, k) : g \in G}
      prev(c) == LET L == {d \in V : d < c} IN IF L = {} THEN -INFTY ELSE MaxSet(L)
      next(c) == LET U == {d \in V : d > c} IN IF U = {} THEN INFTY ELSE MinSet(U)
      up(c) == IF next(c) = INFTY THEN INFTY ELSE next(c) - c
      down(c) == IF prev(c) = -INFTY THEN INFTY ELSE c - prev(c)
      choices == FoldSet(LAMBDA g, acc : {f @@ (g :> e) : f \in acc, e \in Ends(g)}, {<<>>}, G)
      value(ch, i) == LET g == CHOOSE h \in G : i \in h
                          c == ValueOf(vals, g, k)
                      IN  Sat((IF ch[g][1] = i THEN down(c) ELSE 0) + (IF ch[g][2] = i THEN up(c) ELSE 0))
  IN  {[i \in F |-> value(ch, i)] : ch \in choices}

AddTo(A, B, F) == {[i \in F |-> Sat(a[i] + b[i])] : a \in A, b \in B}
\* all possible crowding distances of a front; Unknown when there are too many orders
Unknown(F) == {[i \in F |-> -1]}
Crowdings(vals, F, K, cap) ==
  IF NumOrders(vals, F, K) > cap THEN Unknown(F)
  ELSE FoldSet(LAMBDA k, acc : AddTo(acc, Gaps(vals, F, k), F), {[i \in F |-> 0]}, K)

---------------------------------------------------------------------------
(* Generations.  A population is a bag of members <<x, v, front, crowding>>, *)
(* represented as a function from members to their number.                   *)
BagOfSeq(s) == [m \in SeqToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = m})]
BagSum(f) == FoldSet(LAMBDA m, acc : acc + f[m], 0, DOMAIN f)
RECURSIVE Repeat(_, _)
Repeat(m, k) == IF k = 0 THEN <<>> ELSE <<m>> \o Repeat(m, k - 1)
SeqOfBag(f) == FoldSet(LAMBDA m, acc : acc \o Repeat(m, f[m]), <<>>, DOMAIN f)

\* the first generation is ranked by fronts only
Ranked1(xs, vs) ==
  LET fr == Fronts(vs) IN BagOfSeq([i \in DOMAIN xs |-> <<xs[i], vs[i], FrontNumber(fr, i), 0>>])

\* the room members of F of largest c: those that are certainly kept, and those at the border
Border(c, F, room) == CHOOSE v \in {c[i] : i \in F} : /\ Cardinality({i \in F : c[i] > v}) < room
                                                      /\ Cardinality({i \in F : c[i] >= v}) >= room
Sure(c, F, room) == {i \in F : c[i] > Border(c, F, room)}
Even(c, F, room) == {i \in F : c[i] = Border(c, F, room)}
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k = 1 \/ k = n - 1 THEN n ELSE IF n > 12 THEN 1000
                  ELSE FoldLeft(LAMBDA acc, j : (acc * (n - k + j)) \div j, 1, [j \in 1..k |-> j])
\* too many ways of breaking ties at the border
TooMany(vs, N, cap) ==
  LET K == DOMAIN vs[1]
      fr == Fronts(vs)
      upto(k) == FoldSet(LAMBDA j, acc : acc + Cardinality(fr[j]), 0, 1..k)
      last == CHOOSE k \in DOMAIN fr : upto(k) >= N /\ \A j \in 1..(k - 1) : upto(j) < N
      room == N - upto(last - 1)
  IN  \E c \in Crowdings(vs, fr[last], K, cap) :
        Binomial(Cardinality(Even(c, fr[last], room)), room - Cardinality(Sure(c, fr[last], room))) > 60

\* all possible survivors of the union of parents and offspring: whole fronts in order, the last
\* one truncated by decreasing crowding distance
Survivors(xs, vs, N, cap) ==
  LET K == DOMAIN vs[1]
      fr == Fronts(vs)
      upto(k) == FoldSet(LAMBDA j, acc : acc + Cardinality(fr[j]), 0, 1..k)
      last == CHOOSE k \in DOMAIN fr : upto(k) >= N /\ \A j \in 1..(k - 1) : upto(j) < N
      room == N - upto(last - 1)
      total == FoldSet(LAMBDA j, acc : Min2(1000, acc * NumOrders(vs, fr[j], K)), 1, 1..last)
      lim(j) == IF total > cap /\ j # last THEN 0 ELSE cap
      cr(j) == Crowdings(vs, fr[j], K, lim(j))
      member(i, f, c) == <<xs[i], vs[i], f, c[i]>>
      whole == FoldSet(LAMBDA j, acc : {a \o SetToSeq({<<i, member(i, j - 1, c)>> : i \in fr[j]}) : a \in acc, c \in cr(j)}, {<<>>}, 1..(last - 1))
      ofLast(c) == {Sure(c, fr[last], room) \cup S : S \in kSubset(room - Cardinality(Sure(c, fr[last], room)), Even(c, fr[last], room))}
      parts == UNION {{SetToSeq({<<i, member(i, last - 1, c)>> : i \in S}) : S \in ofLast(c)} : c \in cr(last)}
      strip(s) == [q \in DOMAIN s |-> s[q][2]]
  IN  {BagOfSeq(strip(a \o b)) : a \in whole, b \in parts}

\* a is at least as good as b for tournaments
Beats(a, b) == a[3] < b[3] \/ (a[3] = b[3] /\ (a[4] = -1 \/ b[4] = -1 \/ a[4] >= b[4]))
Weaker(P, m) == FoldSet(LAMBDA w, acc : acc + P[w], 0, {w \in DOMAIN P : Beats(m, w)})
\* the best individual that is point x
OfPoint(P, x) == {m \in DOMAIN P : m[1] = x}
BestOfPoint(P, x) == CHOOSE m \in OfPoint(P, x) : \A w \in OfPoint(P, x) : Beats(m, w)
CanWin(P, k) == {m \in DOMAIN P : Weaker(P, m) >= k}

\* the points ws won the disjoint tournaments of one round, of size k
RoundOk(P, k, ws) ==
  /\ \A j \in DOMAIN ws : OfPoint(P, ws[j]) # {}
  /\ \A j \in DOMAIN ws : Cardinality({q \in DOMAIN ws : ws[q] = ws[j]}) <= FoldSet(LAMBDA m, acc : acc + P[m], 0, OfPoint(P, ws[j]))
  /\ \A j \in DOMAIN ws : LET m == BestOfPoint(P, ws[j])
                          IN  k * Cardinality({q \in DOMAIN ws : Beats(m, BestOfPoint(P, ws[q]))}) <= Weaker(P, m)
Blocks(ws, b) == [q \in 1..((Len(ws) + b - 1) \div b) |-> SubSeq(ws, (q - 1) * b + 1, Min2(q * b, Len(ws)))]

Flip(x, n) == Pow2(n) - 1 - x
Mixed(p, q, o, n) == \A b \in 0..(n - 1) : LET bit(x) == (x \div Pow2(b)) % 2 IN bit(o) \in {bit(p), bit(q)}
\* offspring xs of the parents P.  c: n, N, k, cross (0, 100, or between), mut ("none", "all", "any")
Spawn(c, P, xs) ==
  LET ys == [j \in DOMAIN xs |-> IF c.mut = "all" THEN Flip(xs[j], c.n) ELSE xs[j]]
  IN  CASE c.mut = "any" -> TRUE
        [] c.cross = 0   -> LET bl == Blocks(ys, c.N \div c.k) IN \A q \in DOMAIN bl : RoundOk(P, c.k, bl[q])
        [] OTHER         -> LET W == {m[1] : m \in CanWin(P, c.k)}
                            IN  \A j \in DOMAIN ys : \E p, q \in W : Mixed(p, q, ys[j], c.n)

Union(P, xs, vs) == LET ps == SeqOfBag(P) IN [x |-> [i \in DOMAIN ps |-> ps[i][1]] \o xs, v |-> [i \in DOMAIN ps |-> ps[i][2]] \o vs]
Hopeless(c, Ps, xs, vs, cap) == \E P \in Ps : TooMany(Union(P, xs, vs).v, c.N, cap)

\* one generation: from the possible parents to the possible survivors
Step1(c, Ps, xs, vs, cap) ==
  UNION {LET ps == SeqOfBag(P)
             X == [i \in DOMAIN ps |-> ps[i][1]] \o xs
             V == [i \in DOMAIN ps |-> ps[i][2]] \o vs
         IN  Survivors(X, V, c.N, cap) : P \in {Q \in Ps : Spawn(c, Q, xs)}}

\* what is returned: the individuals of the population that no other dominates
Returned(P) == LET ps == SeqOfBag(P)
                   V == [i \in DOMAIN ps |-> ps[i][2]]
                   F == NonDominated(V, DOMAIN V)
               IN  BagOfSeq(SetToSeq({<<i, <<ps[i][1], ps[i][2]>>>> : i \in F}))
Plain(f) == LET s == SeqOfBag(f) IN BagOfSeq([i \in DOMAIN s |-> s[i][2]])
Answer(P) == Plain(Returned(P))
=============================================================================
