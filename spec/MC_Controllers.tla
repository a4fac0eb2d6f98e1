--------------------------- MODULE MC_Controllers ---------------------------
(* Exhaustive model of every short history over every small stack.  The      *)
(* invariants restate the guarantees on the recorded history of the base     *)
(* function and of each request, independently of the layers' bookkeeping.   *)
EXTENDS Controllers
CONSTANTS NBits, Depth, StackHeight
VARIABLES stack, L, f, hist

vars == <<stack, L, f, hist>>
Points == BitVectors(NBits)
Tables == IF NBits = 1 THEN {<<0, 1>>, <<1, 0>>, <<-1, -1>>} ELSE {<<0, 1, 1, 2>>, <<-3, -1, -2, -1>>}
Kinds == {"counter", "budget", "tracker", "target", "cache"}
Param(k) == CASE k = "budget" -> {0, 1, 2} [] k = "target" -> {0, 1} [] OTHER -> {0}
OneLayer == UNION {{[k |-> k, p |-> p] : p \in Param(k)} : k \in Kinds}
TwoLayers == {<<a, b>> : a \in OneLayer, b \in OneLayer}
ThreeLayers == {<<a, b, c>> : a \in OneLayer, b \in OneLayer, c \in OneLayer}
S2 == {<<a>> : a \in OneLayer} \cup TwoLayers
S3 == ThreeLayers

Ops == {[kind |-> k, x |-> x, v |-> BaseValue(f, x), F |-> F, fail |-> b] :
          k \in {"eval", "safe", "upd"}, x \in Points, F \in {{}}, b \in {FALSE, TRUE}}
       \cup
       {[kind |-> "inc", x |-> x, v |-> BaseValue(f, x), F |-> F, fail |-> FALSE] :
          x \in Points, F \in {{0}}}

Init == /\ stack \in (IF StackHeight = 2 THEN S2 ELSE S3)
        /\ L = <<Layer("base", 0)>> \o [i \in 1..Len(stack) |-> Layer(stack[i].k, stack[i].p)]
        /\ \E t \in Tables : f = [kind |-> "table", t |-> t, c |-> 0]
        /\ hist = <<>>

Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             LET r == Request(L, f, op)
             IN  /\ L' = r.L
                 /\ hist' = Append(hist, [op |-> op, out |-> r.out, val |-> r.val, base |-> r.L[1].log])
        /\ UNCHANGED <<stack, f>>

Top == Len(L)
Counted(h) == h.op.kind # "safe"
Done == SelectSeq(hist, LAMBDA h : Counted(h) /\ h.out = "ok")

\* A budget admits exactly the first p evaluations; refusals never touch the base function.
BudgetInv ==
  \A k \in 2..Top : L[k].k = "budget" => L[k].n <= L[k].p
BudgetTop ==
  L[Top].k = "budget" =>
    LET counted == SelectSeq(hist, Counted) IN
    /\ \A j \in 1..Len(hist) : hist[j].out = "last" /\ (\A k \in 2..(Top-1) : L[k].k # "budget") => hist[j].base = <<>>
    /\ L[Top].n = Len(Done)
    /\ (L[Top].n < L[Top].p /\ \A k \in 2..(Top-1) : L[k].k # "budget") => \A j \in 1..Len(hist) : hist[j].out # "last"

\* The topmost tracker holds the first maximum of the completed evaluations.
TrackerTop ==
  L[Top].k = "tracker" =>
    /\ L[Top].n = Len(Done)
    /\ Done # <<>> =>
         LET best == MaxSet({Done[j].val : j \in DOMAIN Done})
             first == MinSet({j \in DOMAIN Done : Done[j].val = best})
         IN  L[Top].bn = first /\ L[Top].bv = best /\ L[Top].bx = PointOf(Done[first].op)
               /\ BaseValue(f, L[Top].bx) = best

TargetTop ==
  L[Top].k = "target" =>
    \A j \in 1..Len(hist) :
      LET h == hist[j] IN
      (h.out = "ok" /\ h.op.kind # "safe") => h.val < L[Top].p

Transparent ==
  \A j \in 1..Len(hist) : hist[j].out = "ok" => hist[j].val = BaseValue(f, PointOf(hist[j].op))

CacheTop ==
  L[Top].k = "cache" =>
    \A x \in Points :
      Cardinality({j \in 1..Len(hist) : hist[j].op.kind = "eval" /\ hist[j].op.x = x /\ hist[j].out = "ok"
                                        /\ hist[j].base # <<>>}) <= 1
CacheRatio ==
  L[Top].k = "cache" =>
    L[Top].rq = Cardinality({j \in 1..Len(hist) : hist[j].op.kind = "eval"}) /\ L[Top].lk <= L[Top].rq

Inv == BudgetInv /\ BudgetTop /\ TrackerTop /\ TargetTop /\ Transparent /\ CacheTop /\ CacheRatio
=============================================================================
