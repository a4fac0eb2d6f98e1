-------------------------- MODULE LocalSearchTrace ---------------------------
(* Recorded runs of the local searches.                                      *)
EXTENDS LocalSearch, TraceLib
VARIABLES i, s, sup
vars == <<i, s, sup>>

Step(r) ==
  CASE r.e = "begin" -> s' = Fresh(r.c) /\ sup' = sup
    [] r.e = "eval"  -> /\ r.v > 0 /\ r.v <= 100000
                        /\ Legal(s, r.x)
                        /\ (r.inc => s.count > 0 /\ FromCurrent(s, r.ox, r.ov))
                        /\ s' = Eval(s, r.x, r.v) /\ sup' = IF s.count = 0 /\ ~s.c.wide THEN sup \cup {r.x} ELSE sup
    \* mutation rate printed after the iteration
    [] r.e = "rate"  -> r.k = s.k /\ UNCHANGED <<s, sup>>
    \* value printed after the iteration of a walk
    [] r.e = "value" -> s.count >= 2 /\ r.v = Value(s.cur) /\ UNCHANGED <<s, sup>>
    [] r.e = "done"  -> MayEnd(s) /\ Answers(s, r.x, r.v) /\ UNCHANGED <<s, sup>>
    \* the climbers end on local maxima
    [] r.e = "top"   -> (s.over => LocalMax(s.c, r.f, r.x)) /\ UNCHANGED <<s, sup>>
    [] r.e = "stop"  -> s.count >= 1 /\ Answers(s, r.x, r.v) /\ UNCHANGED <<s, sup>>
    \* share of worsening proposals accepted, in percent
    [] r.e = "share" -> /\ s.worse >= r.least
                        /\ s.taken * 100 >= (r.p - r.tol) * s.worse
                        /\ s.taken * 100 <= (r.p + r.tol) * s.worse
                        /\ UNCHANGED <<s, sup>>
    \* cooling
    [] r.e = "stages" -> Len(s.stages) >= r.least /\ StagesOk(s.stages, r.p, r.ratio, r.tol) /\ UNCHANGED <<s, sup>>
    \* starting points
    [] r.e = "forget" -> sup' = {} /\ UNCHANGED s
    [] r.e = "starts" -> sup = Points(s.c) /\ UNCHANGED <<s, sup>>
    [] OTHER -> FALSE

Init == i = 1 /\ sup = {} /\ s = Fresh([alg |-> "walk", n |-> 1, nb |-> "single", r |-> 1, strict |-> FALSE, patience |-> 0,
                                        N |-> 0, start |-> -1, trials |-> 0, accept |-> "maybe", T |-> 0,
                                        k0 |-> 0, kmin |-> 0, kmax |-> 0, gain |-> 0, wide |-> FALSE, from |-> <<>>, cool |-> 0])
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
