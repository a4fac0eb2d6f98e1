----------------------------- MODULE Controllers -----------------------------
(* The evaluation controllers: what each layer of a stack of controllers     *)
(* does with an evaluation request.  A stack is a sequence of layers, the    *)
(* underlying (base) function first, the layer the user calls last.          *)
(*                                                                           *)
(* A request is one of                                                       *)
(*   eval  evaluate x                                                        *)
(*   inc   evaluate incrementally: x, its value v, positions F to flip       *)
(*   safe  evaluate x without touching any controller state (parallel phase) *)
(*   upd   register the safe evaluation (x, v) with the controllers          *)
(* and its outcome is ok (with a value), last (budget exhausted), target     *)
(* (target reached) or error (the underlying function failed).               *)
EXTENDS Bits, TLC

(* Value of the base function: a table over all points or linear weights.    *)
BaseValue(f, x) ==
  IF f.kind = "table" THEN f.t[Index(x) + 1]
                      ELSE Sum([i \in 1..Len(x) |-> f.t[i] * x[i]]) + f.c

Layer(kind, p) ==
  [k |-> kind, p |-> p,
   n |-> 0,                               \* completed evaluations
   bn |-> 0, bv |-> 0, bx |-> <<>>,       \* tracker: rank, value, bit vector of the best
   tv |-> 0, tx |-> <<>>, trig |-> FALSE, \* target: trigger
   c |-> {}, rq |-> 0, lk |-> 0,          \* cache: pairs, requests, lookups
   log |-> <<>>]                          \* base: requests it received for this operation

\* the point an operation evaluates
PointOf(op) == IF op.kind = "inc" THEN FlipSet(op.x, op.F) ELSE op.x

Track(a, op, val) ==
  LET a1 == [a EXCEPT !.n = @ + 1]
  IN  IF a1.n = 1 \/ val > a1.bv
      THEN [a1 EXCEPT !.bn = a1.n, !.bv = val, !.bx = PointOf(op)]
      ELSE a1

RECURSIVE Call(_, _, _, _)
Call(k, L, f, op) ==
  LET a == L[k] IN
  CASE a.k = "base" ->
         LET L1 == [L EXCEPT ![1].log = Append(@, [k |-> op.kind, x |-> op.x, v |-> op.v, F |-> op.F])]
         IN  IF op.fail /\ op.kind # "upd" THEN [out |-> "error", val |-> 0, L |-> L1]
             ELSE [out |-> "ok",
                   val |-> IF op.kind = "upd" THEN op.v ELSE BaseValue(f, PointOf(op)),
                   L |-> L1]
    [] op.kind = "safe" -> Call(k - 1, L, f, op)
    [] a.k = "counter" ->
         LET r == Call(k - 1, L, f, op)
         IN  IF r.out = "ok" THEN [r EXCEPT !.L[k].n = @ + 1] ELSE r
    [] a.k = "budget" ->
         IF a.n = a.p THEN [out |-> "last", val |-> 0, L |-> L]
         ELSE LET r == Call(k - 1, L, f, op)
              IN  IF r.out = "ok" THEN [r EXCEPT !.L[k].n = @ + 1] ELSE r
    [] a.k = "tracker" ->
         LET r == Call(k - 1, L, f, op)
         IN  IF r.out = "ok" THEN [r EXCEPT !.L[k] = Track(@, op, r.val)] ELSE r
    [] a.k = "target" ->
         LET r == Call(k - 1, L, f, op)
         IN  IF r.out = "ok" /\ r.val >= a.p
             THEN [out |-> "target", val |-> 0,
                   L |-> [r.L EXCEPT ![k].trig = TRUE, ![k].tv = r.val, ![k].tx = PointOf(op)]]
             ELSE r
    [] a.k = "cache" ->
         CASE op.kind = "inc" -> [out |-> "error", val |-> 0, L |-> L]
           [] op.kind = "upd" -> Call(k - 1, L, f, op)
           [] OTHER ->
              LET hit == {e \in a.c : e[1] = op.x}
                  L1 == [L EXCEPT ![k].rq = @ + 1]
              IN  IF hit # {}
                  THEN [out |-> "ok", val |-> (CHOOSE e \in hit : TRUE)[2], L |-> [L1 EXCEPT ![k].lk = @ + 1]]
                  ELSE LET r == Call(k - 1, L1, f, op)
                       IN  IF r.out = "ok" THEN [r EXCEPT !.L[k].c = @ \cup {<<op.x, r.val>>}] ELSE r

Request(L, f, op) == Call(Len(L), [L EXCEPT ![1].log = <<>>], f, op)
=============================================================================
