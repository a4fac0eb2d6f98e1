-------------------------- MODULE ControllersTrace --------------------------
(* Follow a recorded history of requests to a real stack of controllers.     *)
(* Which observations are compared depends on the property being decided.    *)
EXTENDS Controllers, TraceLib
VARIABLES i, L, f

Mode == IOEnv.VF_MODE
Dummy == [kind |-> "table", t |-> <<0>>, c |-> 0]

Init == i = 1 /\ L = <<>> /\ f = Dummy

Begin(r) ==
  /\ r.e = "Begin"
  /\ L' = <<Layer("base", 0)>> \o [j \in 1..Len(r.stack) |-> Layer(r.stack[j].k, r.stack[j].p)]
  /\ f' = [kind |-> r.kind, t |-> r.t, c |-> r.c]

\* one observation o of layer a after the request
ObsOk(a, o) ==
  CASE a.k \in {"counter", "budget"} -> (Mode = "C01" => o.n = a.n)
    [] a.k = "tracker" ->
         /\ (Mode \in {"C01", "C02"} => o.n = a.n)
         /\ (Mode = "C02" => (o.bn = a.bn /\ (a.n > 0 => (o.bv = a.bv /\ (a.p = 1 => o.bx = a.bx)))))
    [] a.k = "target" -> (Mode = "C03" /\ a.trig) => (o.tx = a.tx /\ o.tv = a.tv)
    [] a.k = "cache" -> (Mode = "C04" /\ a.rq > 0) => o.ratio = (a.lk * 1000000) \div a.rq
    [] OTHER -> TRUE

LogOk(log, rlog) ==
  /\ Len(rlog) = Len(log)
  /\ \A j \in 1..Len(log) :
       /\ rlog[j].k = log[j].k
       /\ rlog[j].x = log[j].x
       /\ (log[j].k \in {"inc", "upd"} => rlog[j].v = log[j].v)
       /\ (log[j].k = "inc" => SeqToSet(rlog[j].F) = log[j].F)

Op(r) ==
  /\ r.e = "Op"
  /\ LET op == [kind |-> r.k, x |-> r.x, v |-> r.v, F |-> SeqToSet(r.F), fail |-> r.fail]
         q == Request(L, f, op)
     IN  /\ r.out = q.out
         /\ (q.out = "ok" /\ r.k # "upd") => r.val = q.val
         /\ LogOk(q.L[1].log, r.log)
         /\ \A j \in 2..Len(L) : ObsOk(q.L[j], r.obs[j - 1])
         /\ L' = q.L
  /\ UNCHANGED f

\* a very long history told by its totals: M requests whose k-th value is 10 for k = J
\* and follows a short pattern otherwise; budget B above a counter above a tracker
LongRight(r) ==
  LET done == Min2(r.M, r.B)
      P == Len(r.pat)
      ranks == {k \in 1..Min2(done, P) : TRUE}
      top == MaxSet({r.pat[(k % P) + 1] : k \in ranks})
  IN  /\ r.other = 0 /\ r.done = done /\ r.last = r.M - done
      /\ r.calls = done /\ r.tn = done /\ r.cn = done /\ r.bn = done
      /\ r.hit = (IF r.J <= done /\ r.goal <= 10 THEN 1 ELSE 0)
      /\ (r.hit = 1 => r.at = r.J)
      /\ IF r.J <= done THEN r.best = 10 /\ r.rank = r.J
         ELSE /\ r.best = top
              /\ r.rank = CHOOSE k \in ranks : r.pat[(k % P) + 1] = top /\ \A l \in 1..(k - 1) : r.pat[(l % P) + 1] # top
\* D distinct points asked R times each
LongCacheRight(r) == r.wrong = 0 /\ r.calls = r.D /\ r.ratio = ((r.R - 1) * 1000000) \div r.R
Total(r) == /\ r.e \in {"Long", "LongCache"}
            /\ (IF r.e = "Long" THEN LongRight(r) ELSE LongCacheRight(r)) = TRUE
            /\ UNCHANGED <<L, f>>

Next == /\ i <= NRec
        /\ LET r == Trace[i] IN Begin(r) \/ Op(r) \/ Total(r)
        /\ i' = i + 1
=============================================================================
