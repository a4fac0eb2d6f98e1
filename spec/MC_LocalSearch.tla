--------------------------- MODULE MC_LocalSearch ----------------------------
(* The algorithms as they are programmed (an origin, a value, a list of      *)
(* neighbors to visit, a count of failures, a temperature abstracted to a    *)
(* free choice), for every function: each of their evaluations is legal for  *)
(* LocalSearch, what they answer is an answer, and climbers end on maxima.   *)
EXTENDS LocalSearch
CONSTANTS N, Values, Algs, MaxEval, Patience, Limit
VARIABLES f, alg, lim, strict, at, val, todo, cands, fails, status, sol, s, pt
vars == <<f, alg, lim, strict, at, val, todo, cands, fails, status, sol, s, pt>>

Pts == 0..(Pow2(N) - 1)
Cfg == [alg |-> alg, n |-> N, nb |-> "single", r |-> 1, strict |-> strict, patience |-> IF alg = "rls" THEN Patience ELSE 0,
        N |-> lim, start |-> -1, trials |-> IF alg = "sa" THEN 1 ELSE 0, accept |-> "maybe", T |-> 0,
        k0 |-> 0, kmin |-> 0, kmax |-> 0, gain |-> 0, wide |-> FALSE, from |-> <<>>, cool |-> 0]
Neighbors(x) == {y \in Pts : Near(Cfg, x, y)}
F(x) == f[x + 1]

Init == /\ f \in [1..Pow2(N) -> Values] /\ alg \in Algs /\ lim \in {0, Limit} /\ strict \in (IF alg = "rls" THEN BOOLEAN ELSE {FALSE})
        /\ at = 0 /\ val = 0 /\ todo = {} /\ cands = {} /\ fails = 0 /\ status = "new" /\ sol = <<0, 0>> /\ pt = 0
        /\ s = Fresh(Cfg)

Upd(p, x) == IF F(x) > p[2] THEN <<x, F(x)>> ELSE p
More == s.count < MaxEval
Observe(x) == s' = [Eval(s, x, F(x)) EXCEPT !.over = @]

Start == /\ status = "new" /\ \E x \in Pts :
              /\ at' = x /\ val' = F(x) /\ sol' = <<x, F(x)>> /\ Observe(x)
              /\ todo' = IF alg = "complete" THEN Pts \ {x} ELSE Neighbors(x)
         /\ status' = IF alg = "sa" THEN "trial" ELSE "run"
         /\ UNCHANGED <<f, alg, lim, strict, cands, fails, pt>>
TrialA == /\ status = "trial" /\ More /\ \E x \in Pts : pt' = x /\ sol' = Upd(sol, x) /\ Observe(x)
          /\ status' = "trial2" /\ UNCHANGED <<f, alg, lim, strict, at, val, todo, cands, fails>>
TrialB == /\ status = "trial2" /\ More /\ \E x \in Neighbors(pt) :
               /\ sol' = Upd(sol, x) /\ Observe(x) /\ at' = sol'[1] /\ val' = sol'[2]
          /\ status' = "run" /\ UNCHANGED <<f, alg, lim, strict, todo, cands, fails, pt>>
Rls == /\ alg = "rls" /\ status = "run" /\ More
       /\ \E y \in Neighbors(at) :
            /\ Observe(y)
            /\ IF Better(Cfg, F(y), val) THEN at' = y /\ val' = F(y) /\ fails' = 0 ELSE fails' = fails + 1 /\ UNCHANGED <<at, val>>
            /\ sol' = <<at', val'>>
            /\ status' = IF (Patience > 0 /\ fails' = Patience) \/ (lim > 0 /\ s.iters + 1 = lim) THEN "done" ELSE "run"
       /\ UNCHANGED <<f, alg, lim, strict, todo, cands, pt>>
Walk == /\ alg = "walk" /\ status = "run" /\ More
        /\ \E y \in Neighbors(at) : Observe(y) /\ at' = y /\ val' = F(y) /\ sol' = Upd(sol, y)
        /\ status' = IF lim > 0 /\ s.iters + 1 = lim THEN "done" ELSE "run"
        /\ UNCHANGED <<f, alg, lim, strict, todo, cands, fails, pt>>
Anneal == /\ alg = "sa" /\ status = "run" /\ More
          /\ \E y \in Neighbors(at) :
               /\ Observe(y)
               /\ \/ at' = y /\ val' = F(y) /\ sol' = Upd(sol, y)
                  \/ F(y) < val /\ UNCHANGED <<at, val, sol>>
          /\ status' = IF lim > 0 /\ s.iters + 1 = lim THEN "done" ELSE "run"
          /\ UNCHANGED <<f, alg, lim, strict, todo, cands, fails, pt>>
First == /\ alg = "first" /\ status = "run" /\ More
         /\ \E y \in todo :
              /\ Observe(y)
              /\ IF F(y) > val THEN at' = y /\ val' = F(y) /\ todo' = Neighbors(y) ELSE todo' = todo \ {y} /\ UNCHANGED <<at, val>>
              /\ status' = IF todo' = {} \/ (F(y) > val /\ lim > 0 /\ s.iters + 1 = lim) THEN "done" ELSE "run"
              /\ sol' = <<at', val'>>
         /\ UNCHANGED <<f, alg, lim, strict, cands, fails, pt>>
Steep == /\ alg = "steepest" /\ status = "run" /\ More
         /\ \E y \in todo :
              /\ Observe(y)
              /\ LET cs == cands \cup {y}
                     b == {z \in cs : \A u \in cs : F(u) <= F(z)}
                 IN  IF todo = {y}
                     THEN IF \E z \in b : F(z) > val
                          THEN \E z \in b : /\ at' = z /\ val' = F(z) /\ todo' = Neighbors(z) /\ cands' = {}
                                            /\ status' = IF lim > 0 /\ s.iters + 1 = lim THEN "done" ELSE "run"
                          ELSE status' = "done" /\ UNCHANGED <<at, val, cands, todo>>
                     ELSE todo' = todo \ {y} /\ cands' = cs /\ UNCHANGED <<at, val, status>>
              /\ sol' = <<at', val'>>
         /\ UNCHANGED <<f, alg, lim, strict, fails, pt>>
Complete == /\ alg = "complete" /\ status = "run" /\ More
            /\ \E y \in todo : Observe(y) /\ sol' = Upd(sol, y) /\ todo' = todo \ {y} /\ status' = IF todo' = {} THEN "done" ELSE "run"
            /\ UNCHANGED <<f, alg, lim, strict, at, val, cands, fails, pt>>
Next == Start \/ TrialA \/ TrialB \/ Rls \/ Walk \/ Anneal \/ First \/ Steep \/ Complete

\* every evaluation was legal in the state before it
AlwaysLegal == [][s'.count = s.count + 1 => Legal(s, s'.last)]_vars
Sound == /\ (s.count >= 1 /\ status \in {"run", "done"}) => Answers(s, sol[1], sol[2])
         /\ (status = "run" /\ ~KeepsBest(s)) => <<at, val>> \in s.cur
         /\ (status = "run" /\ alg \in {"sa", "walk"}) => <<at, val>> \in s.cur
         /\ status = "done" => MayEnd(s)
         /\ (status = "run" /\ alg # "complete") => Unfinished(s)
         /\ (status = "done" /\ alg \in {"first", "steepest"} /\ s.over) => LocalMax(Cfg, f, sol[1])
Monotone == [][(alg \in {"rls", "first", "steepest"} /\ status = "run") => val' >= val]_vars
=============================================================================
