-------------------------------- MODULE MC_Eda --------------------------------
(* All short runs of the probability-vector algorithms: any generation of N   *)
(* points of n bits may be sampled as long as the vector allows it.           *)
EXTENDS Eda
CONSTANTS N, n, MaxGen, Rates
VARIABLES c, f, pv, best, g
vars == <<c, f, pv, best, g>>

Points == 0..(Pow2(n) - 1)
CONSTANT Tables3
Tables == IF Tables3 THEN {[x \in Points |-> x], [x \in Points |-> Weight(BvOf(x, n))], [x \in Points |-> 0]} ELSE {[x \in Points |-> Weight(BvOf(x, n))]}
Size(alg) == CASE alg = "cga" -> 2 [] alg = "mmas" -> 1 [] OTHER -> N
Configs == {[alg |-> a, n |-> n, dim |-> n, N |-> Size(a), m |-> m, rate |-> r] :
              a \in {"umda", "pbil", "nps", "cga", "mmas"}, m \in 1..N, r \in Rates}
Legal(k) == k.m <= k.N /\ (k.alg = "nps" => 2 * k.m <= k.N) /\ (k.alg \in {"cga", "mmas"} => k.m = 1)
            /\ (k.alg = "umda" => \A q \in Rates : k.rate <= q)
Gens == [1..c.N -> Points]
Pairs(xs) == [j \in DOMAIN xs |-> <<xs[j], f[xs[j]]>>]

Init == /\ c \in {k \in Configs : Legal(k)} /\ f \in Tables /\ g = 0
        /\ \E x \in Points : /\ best = <<x, f[x]>>
                              /\ pv = IF c.alg = "mmas" THEN Toward1(c, Uniform(n), x) ELSE Uniform(n)
Generation(xs) ==
  LET gen == Pairs(xs) IN
  /\ g < MaxGen /\ g' = g + 1
  /\ best' \in {best} \cup {gen[j] : j \in DOMAIN gen}
  /\ best'[2] = MaxSet({best[2]} \cup {gen[j][2] : j \in DOMAIN gen})
  /\ IF c.alg = "mmas" THEN pv' = Toward1(c, pv, best'[1]) ELSE pv' \in PvNext(c, pv, gen)
  /\ UNCHANGED <<c, f>>
Next == \E xs \in Gens : Generation(xs)
Spec == Init /\ [][Next]_vars

TypeOK == best[1] \in Points /\ best[2] = f[best[1]] /\ Len(pv) = n
\* no probability ever leaves the margins, hence every point can be sampled at any time
InMargins == \A i \in 1..n : pv[i] >= Lower(n) - 1 /\ pv[i] <= Upper(n) + 1
EveryPointPossible == \A x \in Points : \A i \in 1..n : (IF BitOf(x, i) = 1 THEN pv[i] ELSE Unit - pv[i]) > 0
\* a vector only moves towards values seen in the generation, or away from the worst ones
Monotone == (c.alg \in {"umda", "pbil", "cga"} /\ g < MaxGen) => \A xs \in Gens : \A q \in PvNext(c, pv, Pairs(xs)) :
   \A i \in 1..n : /\ (\A j \in DOMAIN xs : BitOf(xs[j], i) = 1) => q[i] >= pv[i] - 1
                  /\ (\A j \in DOMAIN xs : BitOf(xs[j], i) = 0) => q[i] <= pv[i] + 1
BestGrows == [][best'[2] >= best[2]]_vars

\* selections are what they are said to be
SelectionRight == g = 0 => \A xs \in Gens : LET gen == Pairs(xs) IN
   /\ Top(gen, c.m) # {}
   /\ \A S \in Top(gen, c.m) : /\ Cardinality(S) = c.m
                               /\ \A i \in S, j \in DOMAIN gen \ S : gen[i][2] >= gen[j][2]
   /\ \A S \in Bottom(gen, c.m) : \A i \in S, j \in DOMAIN gen \ S : gen[i][2] <= gen[j][2]
CountsRight == g = 0 => \A xs \in Gens :
   LET cnt == [y \in 1..Pow2(n) |-> Cardinality({j \in DOMAIN xs : xs[j] = y - 1})]
       gen == [j \in DOMAIN xs |-> <<xs[j], xs[j]>>]
       sel == Selected(cnt, [y \in 1..Pow2(n) |-> y], c.m)
   IN  /\ Sum(sel) = c.m
       /\ \A S \in Top(gen, c.m) : \A i \in 1..n : CountOnes(gen, S, i) = Ones1(sel, i)

ASSUME \A k \in 0..10 : Abs(Log2(Pow2(k)) - k * 4096) <= 1
ASSUME \A k \in 1..300 : Log2(k + 1) >= Log2(k)
ASSUME \A k \in 1..40 : Abs(Log2(3 * k) - Log2(3) - Log2(k)) <= 4
\* products of transvections are bijections, and five of them reach every invertible matrix of order three
ASSUME \A t \in 0..4 : \A A \in Products(3, t) : Cardinality({Image(A, <<0, 1, 1>>, x) : x \in 0..7}) = 8
ASSUME Cardinality(UNION {Products(3, t) : t \in 0..6}) = 168
=============================================================================
