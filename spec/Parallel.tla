------------------------------ MODULE Parallel -------------------------------
(* Evaluation of a population by several threads.  Each thread owns one      *)
(* function; functions are not thread-safe, so that none may be entered      *)
(* twice at a time.  Individuals are evaluated in any order by any function, *)
(* once; then the controllers of the first function are told, in the order   *)
(* of the population.                                                        *)
EXTENDS Controllers

\* p: state of one parallel evaluation.  todo: how many individuals of each point are left;
\* busy: what each function is evaluating; done: points evaluated
NoPoint == <<>>
Open(xs, T) ==
  [xs |-> xs, T |-> T,
   todo |-> [x \in SeqToSet(xs) |-> Cardinality({i \in DOMAIN xs : xs[i] = x})],
   busy |-> [k \in 1..T |-> NoPoint]]

CanStart(p, k, x) == /\ k \in 1..p.T /\ p.busy[k] = NoPoint
                     /\ x \in DOMAIN p.todo /\ p.todo[x] > 0
Start(p, k, x) == [p EXCEPT !.todo[x] = @ - 1, !.busy[k] = x]
CanFinish(p, k, x) == k \in 1..p.T /\ p.busy[k] = x
Finish(p, k) == [p EXCEPT !.busy[k] = NoPoint]
AllDone(p) == (\A x \in DOMAIN p.todo : p.todo[x] = 0) /\ \A k \in 1..p.T : p.busy[k] = NoPoint

\* requests one after the other until one of them does not complete
RECURSIVE Serve(_, _, _, _, _)
Serve(L, f, kind, xs, j) ==
  IF j > Len(xs) THEN [out |-> "ok", L |-> L]
  ELSE LET r == Request(L, f, [kind |-> kind, x |-> xs[j], v |-> BaseValue(f, xs[j]), F |-> {}, fail |-> FALSE])
       IN  IF r.out = "ok" THEN Serve(r.L, f, kind, xs, j + 1) ELSE [out |-> r.out, L |-> r.L]

Values(f, xs) == [j \in DOMAIN xs |-> BaseValue(f, xs[j])]
\* what can be seen of a controller
Shown(a) == CASE a.k \in {"counter", "budget"} -> <<a.n>>
              [] a.k = "tracker" -> <<a.n, a.bn, a.bv, a.bx>>
              [] a.k = "target" -> IF a.trig THEN <<a.tx, a.tv>> ELSE <<>>
              [] OTHER -> <<>>
=============================================================================
