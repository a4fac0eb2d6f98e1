----------------------------- MODULE LocalSearch -----------------------------
(* Local search: a current point, a neighborhood, and a rule that decides    *)
(* which evaluated neighbors become the current point.  What is observed is  *)
(* the sequence of evaluations; where the rule leaves a choice (ties of      *)
(* steepest ascent, random acceptance of simulated annealing) the state      *)
(* holds the set of points that may be current.  Points are numbers (little  *)
(* endian), values are ranks.                                                *)
(*                                                                           *)
(* Configuration c: alg, n, nb, r (neighborhood), strict, patience (0: none),*)
(* N (iterations, 0: unlimited), start (-1: anywhere), trials, accept, T     *)
(* (simulated annealing), k0, kmin, kmax, gain (mutation rate 2^-k, -1: not  *)
(* observed), wide (points are sequences, from: the start, <<>>: anywhere),  *)
(* cool (accepted worsenings after which annealing cools, 0: not observed).  *)
EXTENDS Moves

Fresh(c) == [c |-> c, count |-> 0, cur |-> {}, seen |-> {}, fails |-> 0, iters |-> 0, over |-> FALSE,
             best |-> 0, tops |-> {}, last |-> -1, left |-> c.T, worse |-> 0, taken |-> 0, pend |-> FALSE,
             rv |-> 0, rs |-> {}, k |-> c.k0, stages |-> <<>>]

\* on many bits a point is its sequence of bits
Dist(c, x, y) == IF c.wide THEN Hamming(x, y) ELSE Hamming(BvOf(x, c.n), BvOf(y, c.n))
Near(c, x, y) == LegalCount(c.nb, c.n, c.r, Dist(c, x, y))
Points(c) == 0..(Pow2(c.n) - 1)
IsPoint(c, y) == IF c.wide THEN IsBits(y, c.n) ELSE y \in Points(c)
StartOk(c, y) == IF c.wide THEN c.from \in {<<>>, y} ELSE c.start \in {-1, y}
NumNeighbors(c) == Binom(c.n, IF c.nb = "single" THEN 1 ELSE c.r)

\* currents from which y may be proposed
Sources(s, y) == {p \in s.cur : Near(s.c, p[1], y)}
\* the same, for a steepest ascent whose round has already shown some neighbors
Consistent(s, y) == {p \in s.cur : \A z \in s.seen \cup {y} : Near(s.c, p[1], z)}

InInit(s) == s.c.alg = "sa" /\ s.count < 1 + 2 * s.c.trials
Unfinished(s) == ~s.over /\ (s.c.N > 0 => s.iters < s.c.N)

\* y is a legal next evaluation
Legal(s, y) ==
  /\ IsPoint(s.c, y)
  /\ IF s.count = 0 THEN StartOk(s.c, y)
     ELSE /\ Unfinished(s)
          /\ CASE s.c.alg = "complete" -> y \notin s.seen
               [] InInit(s)            -> (s.count % 2 = 0 => Near(s.c, s.last, y))
               [] s.c.alg = "first"    -> y \notin s.seen /\ Sources(s, y) # {}
               [] s.c.alg = "steepest" -> y \notin s.seen /\ Consistent(s, y) # {}
               [] OTHER                -> Sources(s, y) # {}

Better(c, v, w) == IF c.strict THEN v > w ELSE v >= w
Tops(s, y, v) == IF v > s.best THEN {<<y, v>>} ELSE IF v = s.best THEN s.tops \cup {<<y, v>>} ELSE s.tops
Value(S) == (CHOOSE p \in S : TRUE)[2]

\* proposals and acceptances counted between two coolings
Staged(st, j, acc) == [k \in 1..Max2(j, Len(st)) |-> LET a == IF k <= Len(st) THEN st[k] ELSE <<0, 0>>
                                                      IN  IF k = j THEN <<a[1] + 1, a[2] + (IF acc THEN 1 ELSE 0)>> ELSE a]
\* p per mille is accepted at first; cooling multiplies the inverse temperature by ratio
RECURSIVE Power(_, _)
Power(p, k) == IF k = 1 THEN p ELSE (p * Power(p, k - 1)) \div 1000
RECURSIVE AtStage(_, _, _)
AtStage(p, ratio, j) == IF j = 1 THEN p ELSE Power(AtStage(p, ratio, j - 1), ratio)
\* shares of the stages that are over, within tol per cent of what is expected
StagesOk(st, p, ratio, tol) == \A j \in 1..(Len(st) - 1) :
  LET q == AtStage(p, ratio, j) IN Abs((st[j][2] * 1000) - (q * st[j][1])) * 100 <= tol * q * st[j][1]

\* simulated annealing: the possible currents after y has been considered from p
Annealed(s, p, y, v) ==
  IF v >= p[2] THEN {<<y, v>>}
  ELSE CASE s.c.accept = "always" -> {<<y, v>>}
         [] s.c.accept = "never"  -> {p}
         [] s.c.accept = "count"  -> IF s.left > 0 THEN {<<y, v>>} ELSE {p}
         [] OTHER                 -> {p, <<y, v>>}

Eval(s0, y, v) ==
  LET s == [s0 EXCEPT !.count = @ + 1, !.best = Max2(@, v), !.tops = Tops(s0, y, v), !.last = y]
      c == s.c
      one == {<<y, v>>}
  IN  CASE s0.count = 0 -> [s EXCEPT !.cur = one, !.seen = IF c.alg = "complete" THEN {y} ELSE {}]
        [] c.alg = "complete" -> [s EXCEPT !.seen = @ \cup {y}]
        [] InInit(s0) -> [s EXCEPT !.cur = s.tops]
        [] c.alg = "rls" ->
             LET S == Sources(s0, y)
                 ok == Better(c, v, Value(S))
                 f == IF ok THEN 0 ELSE s.fails + 1
             IN  [s EXCEPT !.cur = IF ok THEN one ELSE S, !.fails = f, !.iters = @ + 1,
                           !.over = c.patience > 0 /\ f = c.patience,
                           !.k = IF ok THEN Max2(@ - c.gain, c.kmin) ELSE Min2(@ + 1, c.kmax)]
        [] c.alg = "walk" -> [s EXCEPT !.cur = one, !.iters = @ + 1]
        [] c.alg = "first" ->
             LET S == Sources(s0, y)
             IN  IF v > Value(S) THEN [s EXCEPT !.cur = one, !.seen = {}, !.iters = @ + 1]
                 ELSE [s EXCEPT !.cur = S, !.seen = @ \cup {y},
                                !.over = Cardinality(s.seen) + 1 = NumNeighbors(c)]
        [] c.alg = "steepest" ->
             LET S == Consistent(s0, y)
                 round == s.seen \cup {y}
                 \* the best neighbors of this round, with the value they reached
                 b == IF s.seen = {} THEN <<v, {y}>>
                      ELSE IF v > s0.rv THEN <<v, {y}>> ELSE IF v = s0.rv THEN <<v, s0.rs \cup {y}>> ELSE <<s0.rv, s0.rs>>
             IN  IF Cardinality(round) < NumNeighbors(c)
                 THEN [s EXCEPT !.cur = S, !.seen = round, !.rv = b[1], !.rs = b[2]]
                 ELSE IF b[1] > Value(S)
                 THEN [s EXCEPT !.cur = {<<z, b[1]>> : z \in b[2]}, !.seen = {}, !.rv = 0, !.rs = {}, !.iters = @ + 1]
                 ELSE [s EXCEPT !.cur = S, !.seen = {}, !.over = TRUE]
        [] OTHER ->   \* simulated annealing
             LET S == Sources(s0, y)
                 \* the previous proposal was worse and is now known to have been accepted or not
                 known == s0.pend /\ Cardinality(S) = 1
                 acc == known /\ (CHOOSE p \in S : TRUE)[1] = s0.last
                 w == \E p \in S : v < p[2]
             IN  [s EXCEPT !.cur = UNION {Annealed(s0, p, y, v) : p \in S},
                           !.iters = @ + 1,
                           !.pend = Cardinality(S) = 1 /\ w /\ s.c.accept = "maybe",
                           !.worse = @ + (IF known THEN 1 ELSE 0),
                           !.taken = @ + (IF acc THEN 1 ELSE 0),
                           !.stages = IF known /\ c.cool > 0 THEN Staged(@, (s0.taken \div c.cool) + 1, acc) ELSE @,
                           !.left = IF w /\ @ > 0 THEN @ - 1 ELSE @]

\* an incremental evaluation starts from the current point and its value
FromCurrent(s, ox, ov) == <<ox, ov>> \in s.cur

KeepsBest(s) == s.c.alg \in {"sa", "walk", "complete"}
Answers(s, x, v) == <<x, v>> \in (IF KeepsBest(s) THEN s.tops ELSE s.cur)

\* the run may end by itself now
MayEnd(s) ==
  /\ s.count >= 1
  /\ IF s.c.alg = "complete" THEN s.seen = Points(s.c)
     ELSE s.over \/ (s.c.N > 0 /\ s.iters = s.c.N /\ ~InInit(s))

\* no neighbor is better
LocalMax(c, f, x) == \A y \in Points(c) : Near(c, x, y) => f[y + 1] <= f[x + 1]
=============================================================================
