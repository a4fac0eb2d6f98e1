------------------------------ MODULE MC_Pareto ------------------------------
(* The ranking as it is programmed - a pool scanned once per front, a set of *)
(* candidates from which newly dominated ones are expelled - for every       *)
(* population of Size values, in every scanning order of the candidates;     *)
(* then truncation by fronts and crowding of every union of two populations. *)
EXTENDS Pareto
CONSTANTS Size, Values, Objectives
VARIABLES vals, pool, next, cand, front, res
vars == <<vals, pool, next, cand, front, res>>

Idx == 1..Size
Init == /\ vals \in [Idx -> [1..Objectives -> Values]]
        /\ pool = [k \in Idx |-> k] /\ next = <<>> /\ cand = {} /\ front = 0 /\ res = <<>>

\* take the head of the pool
Scan == /\ pool # <<>>
        /\ LET h == Head(pool)
           IN  IF \E j \in cand : Dominates(vals[j], vals[h])
               THEN next' = Append(next, h) /\ cand' = cand
               ELSE LET out == {j \in cand : Dominates(vals[h], vals[j])}
                    IN  /\ cand' = (cand \ out) \cup {h}
                        /\ \E o \in SetToSeqs(out) : next' = next \o o
        /\ pool' = Tail(pool)
        /\ UNCHANGED <<vals, front, res>>
Close == /\ pool = <<>> /\ cand # {}
         /\ res' = res @@ [k \in cand |-> front]
         /\ front' = front + 1 /\ pool' = next /\ next' = <<>> /\ cand' = {}
         /\ UNCHANGED vals
Next == Scan \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pool = <<>> /\ cand = {}
Exact == Done => LET fr == Fronts(vals)
                 IN  /\ DOMAIN res = Idx
                     /\ \A k \in Idx : res[k] = FrontNumber(fr, k) /\ res[k] = Chain(vals, k)
Terminates == <>Done
\* the local condition on numbers has that numbering as its only solution
LocalOk == pool = [k \in Idx |-> k] /\ front = 0 =>
  LET want == [k \in Idx |-> Chain(vals, k)] IN \A f \in [Idx -> 0..(Size - 1)] : NumbersOk(vals, f) <=> f = want

\* truncation: half of the values survive
Half == Size \div 2
Start == pool = [k \in Idx |-> k] /\ front = 0
Kept == Survivors([k \in Idx |-> k], vals, Half, 1000)
MemberOf(k, P) == \E m \in DOMAIN P : m[1] = k
TruncationOk == Start => \A P \in Kept :
  /\ BagSum(P) = Half
  \* elitist: a survivor is never in a later front than a dropped one
  /\ \A a, b \in Idx : MemberOf(a, P) /\ ~MemberOf(b, P) => Chain(vals, a) <= Chain(vals, b)
  \* fronts do not change by truncation
  /\ \A m \in DOMAIN P : m[3] = 0 <=> \A w \in DOMAIN P : ~Dominates(w[2], m[2])
  \* the extremes along each objective survive when there is room for them
  /\ Half >= 2 * Objectives => \A o \in 1..Objectives : \E m \in DOMAIN P : \A b \in Idx : m[2][o] <= vals[b][o]
SomeKept == Start => Kept # {}
=============================================================================
