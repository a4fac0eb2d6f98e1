--------------------------- MODULE EvolutionTrace ----------------------------
(* Recorded populations, selections, crossovers and generations.             *)
EXTENDS Evolution, TraceLib
VARIABLES i, s, wins, sup
vars == <<i, s, wins, sup>>

Pairs(xs, vs) == [k \in DOMAIN xs |-> <<xs[k], vs[k]>>]

Step(r) ==
  CASE r.e = "rank"  -> Ranked(r.vs, r.perm, r.m) /\ r.order = [k \in DOMAIN r.perm |-> <<r.xs[r.perm[k] + 1], r.vs[r.perm[k] + 1]>>]
                        /\ UNCHANGED <<s, wins, sup>>
    [] r.e = "class" -> r.range = ClassOf(r.vs, r.perm, r.index) /\ UNCHANGED <<s, wins, sup>>
    [] r.e = "plus"  -> /\ Len(r.out) = Len(r.par) /\ BestOf(r.par \o r.off, r.best) /\ SameBag(r.out, r.best)
                        /\ UNCHANGED <<s, wins, sup>>
    [] r.e = "comma" -> /\ Len(r.out) = Len(r.par) /\ BestOf(r.off, r.best) /\ SameBag(r.out, r.best)
                        /\ UNCHANGED <<s, wins, sup>>
    [] r.e = "refused" -> r.bad = r.thrown /\ UNCHANGED <<s, wins, sup>>
    \* tournaments: a round of disjoint groups at a time
    [] r.e = "round" -> wins' = <<>> /\ UNCHANGED <<s, sup>>
    [] r.e = "win"   -> LET w == Append(wins, r.w)
                        IN  /\ Disjoint(r.vs, r.k, w)
                            /\ wins' = (IF Len(w) = Rounds(Len(r.vs), r.k) THEN <<>> ELSE w)
                            /\ UNCHANGED <<s, sup>>
    [] r.e = "cross" -> Crossed(r.p, r.q, r.o, r.n) /\ UNCHANGED <<s, wins, sup>>
    [] r.e = "crossv" -> Len(r.o) = Len(r.p) /\ (\A k \in DOMAIN r.p : r.o[k] \in {r.p[k], r.q[k]}) = TRUE /\ UNCHANGED <<s, wins, sup>>
    [] r.e = "member" -> r.x \in SeqToSet(r.xs) /\ UNCHANGED <<s, wins, sup>>
    \* everything that may come out does
    [] r.e = "support" -> SeqToSet(r.got) = SeqToSet(r.want) /\ UNCHANGED <<s, wins, sup>>
    \* frequencies proportional to weights, within tol per cent of the total
    [] r.e = "freq"  -> /\ LET W == Sum(r.w)
                               C == Sum(r.c)
                           IN  \A k \in DOMAIN r.w : Abs(r.c[k] * W - C * r.w[k]) * 100 <= r.tol * C * W
                        /\ UNCHANGED <<s, wins, sup>>
    \* generations
    [] r.e = "begin" -> s' = Begin(r.c) /\ UNCHANGED <<wins, sup>>
    [] r.e = "eval"  -> /\ r.v > 0 /\ r.v <= 100000 /\ Legal(s, r.x) /\ s' = Eval(s, r.x, r.v)
                        /\ ((s.c.alg = "comma" /\ s.gens = 0) => FewParents([s EXCEPT !.off = Append(@, <<r.x, r.v>>)]) \/ Opening(s))
                        /\ UNCHANGED <<wins, sup>>
    [] r.e = "final" -> (s.cur = {} \/ s.off # <<>> \/ <<r.x, r.v>> \in s.cur) /\ UNCHANGED <<s, wins, sup>>
    [] OTHER -> FALSE

Init == i = 1 /\ s = Begin([alg |-> "plus", n |-> 1, mu |-> 1, lambda |-> 1, k |-> 1, cross |-> 0, rate |-> 0]) /\ wins = <<>> /\ sup = {}
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
