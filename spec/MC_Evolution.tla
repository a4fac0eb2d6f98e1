---------------------------- MODULE MC_Evolution -----------------------------
(* Selection as it is programmed - a shuffled order, a partial sort, a slice *)
(* of a permutation per tournament - produces exactly what the relations of  *)
(* Evolution allow.                                                          *)
EXTENDS Evolution
CONSTANTS Size, Values, Mu
VARIABLES vals, perm, k, done
vars == <<vals, perm, k, done>>

Perms == {p \in [1..Size -> 0..(Size - 1)] : IsPerm(p, Size)}
Init == vals \in [1..Size -> Values] /\ perm \in Perms /\ k \in 1..Size /\ done = FALSE

\* stable insertion of a shuffled order, up to Mu
Sorted(p) == SortSeq(p, LAMBDA a, b : vals[a + 1] > vals[b + 1])
\* winners of the tournaments over consecutive slices of perm, earliest of the best
Slice(j) == {perm[q] + 1 : q \in ((j - 1) * k + 1)..(j * k)}
Winner(j) == LET q == CHOOSE q \in ((j - 1) * k + 1)..(j * k) :
                          \A t \in ((j - 1) * k + 1)..(j * k) : vals[perm[t] + 1] < vals[perm[q] + 1] \/ (vals[perm[t] + 1] = vals[perm[q] + 1] /\ q <= t)
             IN  perm[q] + 1
Wins == [j \in 1..Rounds(Size, k) |-> Winner(j)]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<vals, perm, k>>

AsPop == [j \in 1..Size |-> <<j, vals[j]>>]
SortOk == LET p == Sorted(perm)
          IN  /\ \A m \in 1..Size : Ranked(vals, p, m)
              /\ \A x \in 0..(Size - 1) : LET c == ClassOf(vals, p, x)
                                          IN  \A y \in 0..(Size - 1) : (y >= c[1] /\ y < c[2]) <=> vals[p[y + 1] + 1] = vals[p[x + 1] + 1]
              /\ BestOf(AsPop, [j \in 1..Mu |-> AsPop[p[j] + 1]])
TournamentOk == \A m \in 0..Rounds(Size, k) : Disjoint(vals, k, SubSeq(Wins, 1, m))
\* conversely whatever Disjoint allows is the outcome of some permutation, up to ties
Possible == done \/ perm # [q \in 1..Size |-> q - 1] \/
  \A w \in {<<a, b>> : a, b \in 1..Size} :
     (Rounds(Size, k) = 2 /\ Disjoint(vals, k, w)) =>
        \E p \in Perms : \A j \in 1..2 : /\ \E q \in ((j - 1) * k + 1)..(j * k) : p[q] + 1 = w[j]
                                         /\ \A q \in ((j - 1) * k + 1)..(j * k) : vals[p[q] + 1] <= vals[w[j]]
=============================================================================
