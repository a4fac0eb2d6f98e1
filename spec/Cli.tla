--------------------------------- MODULE Cli ---------------------------------
(* A run of the command line program: what the requested configuration makes  *)
(* of the evaluations of the concrete function, and what is printed, saved    *)
(* and returned at the end.                                                   *)
(*                                                                            *)
(* A configuration c says: expr (expression applied to the value: 0 none,     *)
(* 1: 2x+3, 2: x^2-4x, 3: -x), min (minimise), map (table of the map, empty   *)
(* without map), budget (0: none), cache, cbud (the budget counts requests    *)
(* made to the cache), stop (0 never, 1 on maximum, 2 on target), goal.       *)
EXTENDS Benchmarks

Deco(c, v) == LET w == CASE c.expr = 0 -> v
                         [] c.expr = 1 -> 2 * v + 3
                         [] c.expr = 2 -> v * v - 4 * v
                         [] c.expr = 3 -> -v
              IN  IF c.min THEN -w ELSE w

\* ---- evaluations that reach the concrete function
Fresh == [num |-> 0, best |-> 0, at |-> 0, vals |-> {}, last |-> 0, over |-> FALSE, imp |-> <<>>]

Injective(m) == Distinct(m)
OnlyOnce(c) == c.cache /\ c.threads = 1 /\ Injective(c.map)
Limited(c) == c.budget > 0 /\ ~(c.cache /\ c.cbud)
MayEvaluate(c, s, x) ==
  /\ ~s.over
  /\ Limited(c) => s.num < c.budget
  /\ OnlyOnce(c) => \A p \in s.vals : p[1] # x
  \* a budget counted on requests to the cache also bounds the evaluations
  /\ c.budget > 0 => s.num < c.budget
Evaluate(c, s, x, v) ==
  LET d == Deco(c, v)
      up == s.num = 0 \/ d > s.best
  IN  [num |-> s.num + 1, best |-> IF up THEN d ELSE s.best, at |-> IF up THEN s.num + 1 ELSE s.at,
       vals |-> s.vals \cup {<<x, d>>}, last |-> x, over |-> c.stop # 0 /\ d >= c.goal,
       imp |-> IF up THEN Append(s.imp, <<s.num + 1, d>>) ELSE s.imp]

\* ---- the end of the run
ExitStatus(c, s) == IF s.over \/ c.stop = 0 THEN 0 ELSE IF c.stop = 1 THEN 2 ELSE 3
ResultsRight(c, s, r) ==
  /\ r.ok /\ r.value = s.best /\ r.num = s.at /\ r.total = s.num
  /\ r.success = (IF c.stop = 0 THEN -1 ELSE IF s.over THEN 1 ELSE 0)
  /\ IF c.cache THEN r.ratio \in 0..100000 ELSE r.ratio = -1
\* the run was not cut short by the budget
Natural(c, s) == ~c.restart /\ ~s.over /\ (c.budget = 0 \/ (Limited(c) /\ s.num < c.budget))
\* the point of the concrete function that a printed solution stands for
Concrete(c, x) == IF c.conc \/ c.map = <<>> THEN x ELSE c.map[x + 1]
SolutionRight(c, s, x, keeps) ==
  /\ (c.conc \/ c.map = <<>>) \/ (x + 1) \in DOMAIN c.map
  /\ LET b == Concrete(c, x)
     IN  IF s.over THEN b = s.last
         ELSE \E p \in s.vals : p[1] = b /\ p[2] <= s.best /\ ((keeps /\ Natural(c, s)) => p[2] = s.best)
ValueOf(s, b) == (CHOOSE p \in s.vals : p[1] = b)[2]

\* ---- weights of the Walsh transform: rows are <<weight, amplitude>>, amplitude in 1e-5
BitCount(u, n) == Cardinality({k \in 0..(n - 1) : (u \div Pow2(k)) % 2 = 1})
WalshRight(n, cs, rows) ==
  LET U == {u \in 1..(Pow2(n) - 1) : cs[u + 1] # 0}
      norm == IF U = {} THEN 1 ELSE MaxSet({Abs(cs[u + 1]) : u \in U})
      Match(r, w, a) == r[1] = w /\ Abs(r[2] * norm - a * 100000) <= norm
      Classes == {<<BitCount(u, n), Abs(cs[u + 1])>> : u \in U}
  IN  /\ Len(rows) = Cardinality(U)
      /\ \A k \in 1..(Len(rows) - 1) : rows[k][2] >= rows[k + 1][2]
      /\ \A q \in Classes : Cardinality({k \in DOMAIN rows : Match(rows[k], q[1], q[2])})
                             = Cardinality({u \in U : <<BitCount(u, n), Abs(cs[u + 1])>> = q})

\* ---- generated instances
WeightsRight(r) ==
  LET w(i) == IF r.k = 1 THEN r.w + (i - 1) * r.s ELSE r.w * (r.s ^ (i - 1))
  IN  \A u \in 0..(Pow2(r.n) - 1) : r.t[u + 1] = Sum([i \in 1..r.n |-> BvOf(u, r.n)[i] * w(i)])
IsingRight(r) ==
  LET J1 == [i \in 1..r.n |-> r.J] h1 == [i \in 1..r.n |-> r.h]
      C(v) == [i \in 1..r.rows |-> [j \in 1..r.cols |-> v]]
  IN  /\ r.n = r.rows * r.cols
      /\ \A u \in 0..(Pow2(r.n) - 1) :
           r.t[u + 1] = IF r.rows = 1 THEN Ising1(BvOf(u, r.n), J1, h1, r.per) ELSE Ising2(BvOf(u, r.n), C(r.J), C(r.J), C(r.h), r.per)
\* one part is constant, the other random: couplings do not see a global flip, fields change sign; in 1e-4
HalfRight(r) ==
  LET J1 == [i \in 1..r.n |-> r.J] h1 == [i \in 1..r.n |-> r.h] Z1 == [i \in 1..r.n |-> 0]
      C(v) == [i \in 1..r.rows |-> [j \in 1..r.cols |-> v]]
      Part(x) == IF r.rows = 1 THEN Ising1(x, IF r.g = 2 THEN J1 ELSE Z1, IF r.g = 1 THEN h1 ELSE Z1, r.per)
                 ELSE LET a == IF r.g = 2 THEN r.J ELSE 0 IN Ising2(x, C(a), C(a), C(IF r.g = 1 THEN r.h ELSE 0), r.per)
      M == Pow2(r.n)
  IN  /\ r.n = r.rows * r.cols
      /\ \A u \in 0..(M - 1) : Abs((IF r.g = 1 THEN r.t[u + 1] - r.t[M - u] ELSE r.t[u + 1] + r.t[M - u]) - 20000 * Part(BvOf(u, r.n))) <= 3
      \* and the other part varies
      /\ \E u \in 0..(M - 1) : Abs(r.t[u + 1] - 10000 * Part(BvOf(u, r.n))) > 20
\* every clause of k distinct variables is satisfied by all but one in 2^k points
ClausesRight(r) == r.sum = r.m * (Pow2(r.n) - Pow2(r.n - r.k))
XorNum(a, b, n) == Index(BvXor(BvOf(a, n), BvOf(b, n)))
MapRight(r) ==
  LET I == SeqToSet(r.img)
      T == {XorNum(a, r.img[1], r.n) : a \in I}
  IN  /\ Len(r.img) = Pow2(r.ni)
      /\ I \subseteq 0..(Pow2(r.n) - 1)
      /\ (r.kind \in {1, 2, 3, 6} \/ r.sur) => I = 0..(Pow2(r.n) - 1)
      /\ r.kind = 2 => 0 \in I
      /\ r.kind = 4 => 0 \in I
      /\ \A a, b \in T : XorNum(a, b, r.n) \in T

\* ---- noise: the same point evaluated T times; in millionths
Near(k, T, p) == LET dv == Abs(k - (T * (p \div 1000)) \div 1000) IN dv <= 8 + T \div 200 \/ dv * dv <= 36 * ((T * (p \div 1000)) \div 1000 + 2)
RECURSIVE Power6(_, _)
Power6(q, k) == IF k = 0 THEN 1000000 ELSE (Power6(q, k - 1) \div 1000) * (q \div 1000)
\* the radii that occur
Radii(r) == {w \in 0..r.n : r.weights[w + 1] > 0}
NoiseRight(r) ==
  /\ r.rc = 0 /\ r.num = r.T /\ r.right
  /\ CASE r.kind = 0 -> Radii(r) = {1} /\ \A k \in 1..r.n : Near(r.flips[k], r.T, 1000000 \div r.n)
       [] r.kind = 1 -> LET none == Power6(1000000 - r.rate, r.n)
                            p == IF r.zero THEN r.rate ELSE (r.rate \div ((1000000 - none) \div 1000)) * 1000
                        IN  /\ IF r.zero THEN Near(r.weights[1], r.T, none) ELSE r.weights[1] = 0
                            /\ \A k \in 1..r.n : Near(r.flips[k], r.T, p)
       [] r.kind = 2 -> Radii(r) = 1..r.radius
       [] r.kind = 3 -> Radii(r) = {r.radius} /\ \A k \in 1..r.n : Near(r.flips[k], r.T, (r.radius * 1000000) \div r.n)
       [] r.kind = 4 -> Radii(r) = {0} /\ Near(r.one, r.T, 682689) /\ Near(r.two, r.T, 954500) /\ Near(r.up, r.T, 500000)
       \* no noise at all
       [] r.kind = 5 -> Radii(r) = {0}

\* ---- points typed by a human: words that are too short are asked again, the
\* others are cut; the run ends with the words, the iterations or the budget
HumanRight(r) ==
  LET good == SelectSeq(r.ins, LAMBDA w : w.len >= r.n)
      k1 == IF r.it > 0 THEN Min2(Len(good), r.it + 1) ELSE Len(good)
      k == IF r.budget > 0 THEN Min2(k1, r.budget) ELSE k1
      best == MaxSet({good[j].x : j \in 1..k})
  IN  /\ r.rc = 0
      /\ r.xs = [j \in 1..k |-> good[j].x]
      /\ r.p.ok /\ r.p.value = best /\ r.p.total = k /\ r.p.num = CHOOSE j \in 1..k : good[j].x = best /\ \A l \in 1..(j - 1) : good[l].x # best
      /\ r.sol = best

\* ---- parsed functions: the values at all points, in any order
\* what is made of a value; the functions of hnco with several objectives add them
Converted(id, cplx, v) == IF cplx THEN (IF (id \div 10) % 2 = 0 THEN v ELSE -v) ELSE IF (id \div 10) % 2 = 0 THEN v ELSE -Abs(v)
Terms(cplx, ex, x, y) ==
  IF cplx THEN CASE ex = 0 -> <<(x + 1) * (x + 1) + y * y>>
                 [] ex = 1 -> <<(x * x + y * y) * (x * x + y * y)>>
                 [] ex = 2 -> <<x * x + y * y, (x - 2) * (x - 2) + y * y>>
  ELSE CASE ex = 0 -> <<x + 2 * y>>
         [] ex = 1 -> <<x * y - 3>>
         [] ex = 2 -> <<y * y - 4 * x>>
         [] ex = 3 -> <<x + y, x - y>>
         [] ex = 4 -> <<2 * x, y - 5, x * y>>
         [] ex = 5 -> <<x>>
ParsedRight(r) ==
  LET V(x, y) == LET t == Terms(r.cplx, r.ex, x, y) IN Sum([k \in DOMAIN t |-> Converted(r.id, r.cplx, t[k])])
      one == r.ex = 5 /\ ~r.cplx
      D == IF one THEN {<<i, 1>> : i \in 1..4} ELSE (1..4) \X (1..4)
      W == [p \in D |-> V(r.X[p[1]], r.Y[p[2]])]
  IN  /\ r.rc = 0 /\ Len(r.vals) = Cardinality(D)
      /\ \A v \in SeqToSet(r.vals) \cup {W[p] : p \in D} :
           Cardinality({k \in DOMAIN r.vals : r.vals[k] = v}) = Cardinality({p \in D : W[p] = v})

\* ---- several objectives, all minimised: x in -3..4, y in 0..3
Objectives(r, x, y) ==
  LET raw == IF r.cplx
             THEN CASE r.ex = 0 -> <<x * x + y * y, (x - 2) * (x - 2) + y * y>>
                    [] r.ex = 1 -> <<(x + 1) * (x + 1) + y * y, (x - 1) * (x - 1) + y * y, (x * x + y * y) * (x * x + y * y)>>
             ELSE CASE r.ex = 0 -> <<x + y, x - y>>
                    [] r.ex = 1 -> <<x * x, (x - 2) * (x - 2)>>
                    [] r.ex = 2 -> <<x, -x>>
                    [] r.ex = 3 -> <<x + y, y - 2 * x, x * y>>
                    [] r.ex = 4 -> <<x, y>>
  IN  IF r.id >= 530 THEN [k \in DOMAIN raw |-> Abs(raw[k])] ELSE raw
Dominates(a, b) == a # b /\ \A k \in DOMAIN a : a[k] <= b[k]
FrontRight(r) ==
  /\ Len(r.rows) \in 1..r.mu
  /\ \A k \in DOMAIN r.rows : \E x \in -3..4, y \in 0..3 : r.rows[k] = Objectives(r, x, y)
  /\ r.desc = r.rows
  /\ \A j, k \in DOMAIN r.rows : ~Dominates(r.rows[j], r.rows[k])

\* ---- parameters: sequences of <<name, value>>
Others(s, name) == SelectSeq(s, LAMBDA p : p[1] # name)
ParamRight(r) == /\ r.rc = 0
                 /\ Others(r.after, r.name) = Others(r.before, r.name)
                 /\ SelectSeq(r.after, LAMBDA p : p[1] = r.name) = <<<<r.name, r.val>>>>
DefaultsRight(r) == /\ r.rc = 0 /\ r.nopt >= r.least
                    /\ SeqToSet(r.doc) \subseteq SeqToSet(r.def)
                    /\ \A p \in SeqToSet(r.def) : \E q \in SeqToSet(r.doc) : q[1] = p[1]
==============================================================================
