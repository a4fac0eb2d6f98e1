-------------------------------- MODULE Moment --------------------------------
(* First and second Walsh moments, herding, Gibbs sampling, and the two       *)
(* algorithms built on them.  A moment is a symmetric matrix of integers (in  *)
(* a unit stated by its user) whose diagonal is the first moment.  The sign   *)
(* of bit 0 is +1, that of bit 1 is -1.  Points are numbers whose binary      *)
(* digits are the bits.                                                       *)
EXTENDS Eda

Sg(x, i) == 1 - 2 * BitOf(x, i)
Ent(x, i, j) == IF i = j THEN Sg(x, i) ELSE Sg(x, i) * Sg(x, j)
Mat(n, e(_, _)) == [i \in 1..n |-> [j \in 1..n |-> e(i, j)]]
Zero(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
AddPoint(M, x) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> M[i][j] + Ent(x, i, j)]]
\* the sum of the moments of points xs
MomentSum(n, xs) == FoldLeft(AddPoint, Zero(n), xs)
Symmetric(M) == \A i, j \in DOMAIN M : M[i][j] = M[j][i]
\* equal where i >= j
SameLower(A, B) == \A i \in DOMAIN A : \A j \in 1..i : A[i][j] = B[i][j]
Lin(a, A, b, B) == [i \in DOMAIN A |-> [j \in DOMAIN A |-> a * A[i][j] + b * B[i][j]]]
Clamp(A, b) == [i \in DOMAIN A |-> [j \in DOMAIN A |-> Max2(-b, Min2(b, A[i][j]))]]

Lower2(n) == {p \in (1..n) \X (1..n) : p[2] <= p[1]}
Norm1(A) == SumOver(Lower2(Len(A)), LAMBDA p : Abs(A[p[1]][p[2]]))
NormSq(A) == SumOver(Lower2(Len(A)), LAMBDA p : A[p[1]][p[2]] * A[p[1]][p[2]])
NormInf(A) == MaxSet({0} \cup {Abs(A[p[1]][p[2]]) : p \in Lower2(Len(A))})
\* integer square root by bisection
RECURSIVE Root(_, _, _)
Root(s, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= s THEN Root(s, mid, hi) ELSE Root(s, lo, mid)
ISqrt(s) == Root(s, 0, 46340)
\* h, four times a norm, is right
IsNorm(h, A) == Close(h, ISqrt(16 * NormSq(A)), 2)

---------------------------------------------------------------------------
(* Herding: target in units of 1/D, count of what was sampled.  The next      *)
(* point follows greedily the signs of time * target - count, taking the bits *)
(* in some order.                                                             *)
Delta(D, target, time, count) == Lin(time, target, -D, count)
RECURSIVE Greedy(_, _, _, _)
\* bits chosen so far: a function from positions, in the order ord
Greedy(delta, ord, k, s) ==
  IF k > Len(ord) THEN s
  ELSE LET i == ord[k]
           acc == delta[i][i] + FoldLeft(LAMBDA a, l : a + s[ord[l]] * delta[i][ord[l]], 0, [l \in 1..(k - 1) |-> l])
       IN  Greedy(delta, ord, k + 1, [s EXCEPT ![i] = IF acc > 0 THEN 1 ELSE -1])
Signs(n, x) == [i \in 1..n |-> Sg(x, i)]
Orders == [n \in 1..4 |-> {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}]
\* sets of bits that some order can have set first, all of them as in x
RECURSIVE SetFirst(_, _, _, _)
SetFirst(n, delta, s, Ps) ==
  LET Grown(P) == {P \cup {i} : i \in {j \in (1..n) \ P : ((delta[j][j] + SumOver(P, LAMBDA l : s[l] * delta[j][l])) > 0) = (s[j] = 1)}}
  IN  IF Ps = {} \/ (1..n) \in Ps THEN Ps ELSE SetFirst(n, delta, s, UNION {Grown(P) : P \in Ps})
Herds(n, delta, randomized, x) ==
  IF randomized THEN SetFirst(n, delta, Signs(n, x), {{}}) # {}
  ELSE Greedy(delta, [i \in 1..n |-> i], 1, [i \in 1..n |-> 0]) = Signs(n, x)
HerdsInOrder(n, delta, x) == \E ord \in Orders[n] : Greedy(delta, ord, 1, [i \in 1..n |-> 0]) = Signs(n, x)

\* samples xs[k..] from time and count; the last delta and what is left behind
RECURSIVE HerdAll(_, _, _, _, _, _)
HerdAll(c, target, time, count, xs, k) ==
  IF k > Len(xs) THEN [ok |-> TRUE, time |-> time, count |-> count, delta |-> Zero(c.n)]
  ELSE LET d == Delta(c.D, target, time + 1, count)
       IN  IF ~Herds(c.n, d, c.randomized, xs[k]) THEN [ok |-> FALSE, time |-> time, count |-> count, delta |-> d]
           ELSE LET r == HerdAll(c, target, time + 1, AddPoint(count, xs[k]), xs, k + 1)
                IN  IF k = Len(xs) THEN [r EXCEPT !.delta = d] ELSE r

\* targets after a generation (rate = r / R, moments of the m best, margin b/D from one)
HeaTargets(c, target, gen) ==
  {LET s == FoldSet(LAMBDA i, M : AddPoint(M, gen[i][1]), Zero(c.n), S)
       raw == [i \in 1..c.n |-> [j \in 1..c.n |-> (target[i][j] * c.m * (c.R - c.r) + c.r * s[i][j] * c.D) \div (c.m * c.R)]]
   IN  IF c.bounded THEN Clamp(raw, c.D - c.b) ELSE raw : S \in Top(gen, c.m)}

---------------------------------------------------------------------------
(* Gibbs sampling: a bit is one with probability 1 / (1 + exp(2 field)).      *)
Field(th, x, i) == th[i][i] + SumOver(DOMAIN th \ {i}, LAMBDA j : Sg(x, j) * th[i][j])
\* bits that can come up, fields of at least big being decisive
CanBe(th, x, i, big) == LET f == Field(th, x, i) IN IF f >= big THEN {0} ELSE IF f <= -big THEN {1} ELSE {0, 1}
SetBit(x, i, b) == x + (b - BitOf(x, i)) * Pow2(i - 1)
After(th, X, i, big) == UNION {{SetBit(x, i, b) : b \in CanBe(th, x, i, big)} : x \in X}
\* one asynchronous step, on any bit
AnyBit(th, X, big) == UNION {After(th, X, i, big) : i \in DOMAIN th}
RECURSIVE Steps(_, _, _, _)
Steps(th, X, big, t) == IF t = 0 THEN X ELSE Steps(th, AnyBit(th, X, big), big, t - 1)
InOrder(th, X, ord, big) == FoldLeft(LAMBDA Y, i : After(th, Y, i, big), X, ord)
RECURSIVE Scans(_, _, _, _)
Scans(th, X, big, t) == IF t = 0 THEN X ELSE Scans(th, UNION {InOrder(th, X, ord, big) : ord \in Orders[Len(th)]}, big, t - 1)
RECURSIVE Syncs(_, _, _, _)
Syncs(th, X, big, t) ==
  IF t = 0 THEN X
  ELSE Syncs(th, UNION {{y \in 0..(Pow2(Len(th)) - 1) : \A i \in DOMAIN th : BitOf(y, i) \in CanBe(th, x, i, big)} : x \in X}, big, t - 1)
\* probability, in Units, of a one with twice the field equal to z
Sigma == <<500000, 268941, 119203, 47426, 17986, 6693, 2473, 911, 335, 123, 45, 17, 6, 2, 1>>
ProbOne(z) == IF Abs(z) > 14 THEN (IF z > 0 THEN 0 ELSE Unit) ELSE IF z >= 0 THEN Sigma[z + 1] ELSE Unit - Sigma[1 - z]

Everywhere(n) == 0..(Pow2(n) - 1)
\* mode: 0 asynchronous, 1 full scan, 2 synchronous
Sampled(c, th, X, big) == CASE c.mode = 0 -> Steps(th, X, big, c.steps) [] c.mode = 1 -> Scans(th, X, big, c.cycles) [] c.mode = 2 -> Syncs(th, X, big, c.cycles)
\* reset: 0 never, 1 at each iteration, 2 for each bit vector.  X: states the chain may be in
RECURSIVE BmWalk(_, _, _, _, _)
BmWalk(c, th, X, xs, k) ==
  IF k > Len(xs) THEN X
  ELSE IF c.far THEN {xs[Len(xs)]}      \* not followed
  ELSE LET from == IF c.reset = 2 \/ (c.reset = 1 /\ k = 1) THEN Everywhere(c.n) ELSE X
       IN  IF xs[k] \in Sampled(c, th, from, 20 * c.D) THEN BmWalk(c, th, {xs[k]}, xs, k + 1) ELSE {}
\* parameters (unit 1/D, D = m N R) after a generation
BmParams(c, th, gen) ==
  LET sum(S) == FoldSet(LAMBDA i, M : AddPoint(M, gen[i][1]), Zero(c.n), S)
      all == sum(DOMAIN gen)
  IN  IF c.nps THEN {Lin(1, th, c.r * c.N, Lin(1, sum(S), -1, sum(W))) : S \in Top(gen, c.m), W \in Bottom(gen, c.m)}
      ELSE {Lin(1, th, c.r, Lin(c.N, sum(S), -c.m, all)) : S \in Top(gen, c.m)}
=============================================================================
