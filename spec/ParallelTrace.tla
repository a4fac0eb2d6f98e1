---------------------------- MODULE ParallelTrace ----------------------------
(* Recorded parallel evaluations: entries and exits of the functions in the  *)
(* order in which they happened, then values and controllers.                *)
EXTENDS Parallel, TraceLib
VARIABLES i, L, f, p
vars == <<i, L, f, p>>

ObsOk(a, o) ==
  CASE a.k \in {"counter", "budget"} -> o.n = a.n
    [] a.k = "tracker" -> o.n = a.n /\ (a.n > 0 => o.bn = a.bn /\ o.bv = a.bv /\ o.bx = a.bx)
    [] a.k = "target" -> a.trig => (o.tx = a.tx /\ o.tv = a.tv)
    [] OTHER -> TRUE

Step(r) ==
  CASE r.e = "Begin" -> /\ L' = <<Layer("base", 0)>> \o [j \in 1..Len(r.stack) |-> Layer(r.stack[j].k, r.stack[j].p)]
                        /\ f' = [kind |-> "table", t |-> r.t, c |-> 0] /\ p' = p
    [] r.e = "open"  -> p' = Open(r.xs, r.T) /\ UNCHANGED <<L, f>>
    [] r.e = "in"    -> CanStart(p, r.k, r.x) /\ p' = Start(p, r.k, r.x) /\ UNCHANGED <<L, f>>
    [] r.e = "out"   -> CanFinish(p, r.k, r.x) /\ p' = Finish(p, r.k) /\ UNCHANGED <<L, f>>
    [] r.e = "close" -> /\ AllDone(p) /\ r.values = Values(f, p.xs) /\ r.xs = p.xs
                        /\ LET q == IF r.upd THEN Serve(L, f, "upd", p.xs, 1) ELSE [out |-> "ok", L |-> L]
                           IN  /\ r.out = q.out
                               /\ \A j \in 2..Len(L) : ObsOk(q.L[j], r.obs[j - 1])
                               /\ L' = q.L
                        /\ UNCHANGED <<f, p>>
    [] r.e = "eval"  -> /\ LET q == Request(L, f, [kind |-> "eval", x |-> r.x, v |-> 0, F |-> {}, fail |-> FALSE])
                           IN  r.out = q.out /\ (q.out = "ok" => r.v = q.val) /\ L' = q.L
                        /\ UNCHANGED <<f, p>>
    \* counters hit by every schedule: how many threads took part, whether they overlapped
    [] r.e = "seen"  -> r.ok /\ UNCHANGED <<L, f, p>>
    \* a population too large to be followed: values, number of evaluations, counters and best-so-far
    [] r.e = "bulk"  -> /\ (\A k \in DOMAIN r.xs : r.vs[k] = r.t[r.xs[k] + 1]) = TRUE
                        /\ r.kept /\ Len(r.vs) = Len(r.xs) /\ r.calls = Len(r.xs) /\ r.n0 = Len(r.xs) /\ r.n1 = Len(r.xs)
                        /\ LET m == MaxSet(SeqToSet(r.vs)) IN
                           r.bv = m /\ r.vs[r.bn] = m /\ (\A k \in 1..(r.bn - 1) : r.vs[k] < m) = TRUE /\ r.bx = r.xs[r.bn]
                        /\ UNCHANGED <<L, f, p>>
    [] OTHER -> FALSE

Init == i = 1 /\ L = <<>> /\ f = [kind |-> "table", t |-> <<0>>, c |-> 0] /\ p = Open(<<>>, 0)
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
