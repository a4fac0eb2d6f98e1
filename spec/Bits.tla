-------------------------------- MODULE Bits --------------------------------
(* Bit vectors are sequences over {0,1}; component 0 of the code is element 1 *)
(* here.  Sparse bit vectors are sets (or sequences) of zero-based positions. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Pow2(k) == 2 ^ k

IsBits(x, n) == /\ Len(x) = n
                /\ \A i \in 1..n : x[i] \in {0, 1}

BitVectors(n) == [1..n -> {0, 1}]

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA k, acc : acc + f(k), 0, S)

Weight(x) == Sum(x)
Xor(a, b) == (a + b) % 2
Ones(x) == {i \in 1..Len(x) : x[i] = 1}
Zeros(x) == {i \in 1..Len(x) : x[i] = 0}

\* F: set of zero-based positions
FlipSet(x, F) == [i \in 1..Len(x) |-> IF (i - 1) \in F THEN 1 - x[i] ELSE x[i]]
SeqToSet(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SeqToSet(s)) = Len(s)

Hamming(x, y) == Cardinality({i \in 1..Len(x) : x[i] # y[i]})
Diff(x, y) == {i - 1 : i \in {j \in 1..Len(x) : x[j] # y[j]}}

BvXor(x, y) == [i \in 1..Len(x) |-> Xor(x[i], y[i])]
BvDot(x, y) == Sum([i \in 1..Len(x) |-> x[i] * y[i]]) % 2

\* little endian value, the order used by the code's enumeration of points
Index(x) == FoldRight(LAMBDA b, acc : b + 2 * acc, x, 0)
BvOf(u, n) == [i \in 1..n |-> (u \div Pow2(i - 1)) % 2]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MaxSet(S) == CHOOSE m \in S : \A y \in S : y <= m
MinSet(S) == CHOOSE m \in S : \A y \in S : y >= m
=============================================================================
