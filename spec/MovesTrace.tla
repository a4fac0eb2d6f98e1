----------------------------- MODULE MovesTrace ------------------------------
(* Histories of the real iterators and neighborhoods.                        *)
EXTENDS Moves, TraceLib
VARIABLES i, it, nb
vars == <<i, it, nb>>

\* ---- iterators: the current point, the origin of the enumeration, what has been visited
Fresh == [kind |-> "none"]

ItInit(r) == it' = [kind |-> r.kind, n |-> r.n, r |-> r.r, cur |-> [k \in 1..r.n |-> 0],
                    origin |-> [k \in 1..r.n |-> 0], seen |-> {}]
ItSetOrigin(r) == it' = [it EXCEPT !.cur = r.x, !.origin = r.x, !.seen = {}]
\* restarting enumerates around the current bit vector
ItRestart(r) == it' = [it EXCEPT !.origin = it.cur, !.seen = {}]
ItHasNext(r) == /\ r.b = (it.seen # Target(it.kind, it.n, it.r, it.origin))
                /\ UNCHANGED it
ItNext(r) == /\ r.x \in Target(it.kind, it.n, it.r, it.origin) \ it.seen
             /\ it' = [it EXCEPT !.cur = r.x, !.seen = it.seen \cup {r.x}]

ItStep(r) ==
  CASE r.e = "it"     -> ItInit(r)
    [] r.e = "origin" -> ItSetOrigin(r)
    [] r.e = "init"   -> ItRestart(r)
    [] r.e = "more"   -> ItHasNext(r)
    [] r.e = "next"   -> ItNext(r)
    \* a whole enumeration at once
    [] r.e = "enum"   -> /\ Len(r.xs) = TargetSize(r.kind, r.n, r.r)
                         /\ Distinct(r.xs)
                         /\ \A k \in DOMAIN r.xs : InTarget(r.kind, r.n, r.r, r.origin, r.xs[k])
                         /\ UNCHANGED it
    \* a long enumeration: how many points, how many different ones, and a sample of them
    [] r.e = "long"   -> /\ r.count = TargetSize(r.kind, r.n, r.r) /\ r.different = r.count
                         /\ Distinct(r.xs)
                         /\ \A k \in DOMAIN r.xs : InTarget(r.kind, r.n, r.r, r.origin, r.xs[k])
                         /\ UNCHANGED it
    [] OTHER -> FALSE

\* ---- neighborhoods
NbNew(r) == nb' = [kind |-> r.kind, n |-> r.n, r |-> r.r, origin |-> <<>>, cand |-> <<>>, flips |-> {}, open |-> FALSE]
Sorted(f) == \A k \in 1..(Len(f) - 1) : f[k] < f[k + 1]
Sees(r) == r.o = nb'.origin /\ r.c = nb'.cand

NbSet(r) == nb' = [nb EXCEPT !.origin = r.x, !.cand = r.x, !.open = FALSE] /\ Sees(r)
NbPropose(r) ==
  /\ ~nb.open
  /\ LegalFlips(nb.kind, nb.n, nb.r, r.f) /\ Sorted(r.f)
  /\ nb' = [nb EXCEPT !.cand = FlipSet(nb.origin, SeqToSet(r.f)), !.flips = SeqToSet(r.f), !.open = TRUE]
  /\ Sees(r)
NbKeep(r) == nb.open /\ nb' = [nb EXCEPT !.origin = nb.cand, !.open = FALSE] /\ Sees(r)
NbForget(r) == nb.open /\ nb' = [nb EXCEPT !.cand = nb.origin, !.open = FALSE] /\ Sees(r)
\* mutation of a bit vector of the caller: origin and candidate stay
NbMutate(r) == /\ LegalCount(nb.kind, nb.n, nb.r, Hamming(r.x, r.y)) /\ IsBits(r.y, nb.n)
               /\ (Has(r, "in") => r.in = r.x)
               /\ UNCHANGED nb /\ Sees(r)
NbRate(r) == nb' = [nb EXCEPT !.kind = r.kind, !.r = r.r]

Near(c, num, den, tol) == Abs(c * den - num) * 100 <= tol * num

NbStep(r) ==
  CASE r.e = "nb"      -> NbNew(r)
    [] r.e = "set"     -> NbSet(r)
    [] r.e = "propose" -> NbPropose(r)
    [] r.e = "keep"    -> NbKeep(r)
    [] r.e = "forget"  -> NbForget(r)
    [] r.e = "mutate"  -> NbMutate(r)
    [] r.e = "config"  -> NbRate(r)
    \* every legal set of bits is proposed sooner or later (seen: indexes of the flip sets)
    [] r.e = "support" -> /\ SeqToSet(r.seen) =
                               {Index(x) : x \in {y \in BitVectors(r.n) : LegalCount(r.kind, r.n, r.r, Weight(y))}}
                          /\ UNCHANGED nb
    \* uniform choice: each of the counted outcomes is as frequent as the others
    [] r.e = "uniform" -> /\ Len(r.c) = r.k /\ Sum(r.c) = r.N
                          /\ \A k \in DOMAIN r.c : Near(r.c[k], r.N, r.k, 15)
                          /\ UNCHANGED nb
    \* many outcomes, fewer samples of each
    [] r.e = "spread"  -> /\ Len(r.c) = r.k /\ Sum(r.c) = r.N
                          /\ \A k \in DOMAIN r.c : Near(r.c[k], r.N, r.k, 30)
                          /\ UNCHANGED nb
    \* mutation rate 1/q in dimension n: mean number of flips of N samples, zero excluded or not
    [] r.e = "rate"    -> /\ IF r.zero THEN Near(r.T, r.N * r.n, r.q, 10)
                             ELSE \* n/q / (1 - ((q-1)/q)^n) = n q^n / (q (q^n - (q-1)^n))
                                  Near(r.T \div 100, (r.N \div 100) * r.n * (r.q ^ (r.n - 1)), r.q ^ r.n - (r.q - 1) ^ r.n, 10)
                          /\ UNCHANGED nb
    [] OTHER -> FALSE

ItEvents == {"it", "origin", "init", "more", "next", "enum", "long"}
Init == i = 1 /\ it = Fresh /\ nb = Fresh
Next == /\ i <= NRec
        /\ i' = i + 1
        /\ LET r == Trace[i]
           IN  IF r.e \in ItEvents THEN ItStep(r) /\ UNCHANGED nb ELSE NbStep(r) /\ UNCHANGED it
=============================================================================
