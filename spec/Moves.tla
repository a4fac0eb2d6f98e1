------------------------------- MODULE Moves --------------------------------
(* Neighborhoods (a point, a proposal and the bits that differ) and          *)
(* iterators (an enumeration of a set of bit vectors in any order).          *)
EXTENDS Bits

Sphere(x, r) == IF r = 0 THEN {} ELSE {FlipSet(x, S) : S \in {T \in SUBSET (0..(Len(x) - 1)) : Cardinality(T) = r}}

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k < 0 \/ k > n THEN 0
               ELSE IF k > n - k THEN Binom(n, n - k)
               ELSE (Binom(n, k - 1) * (n - k + 1)) \div k

\* what a kind of enumeration has to visit
Target(kind, n, r, origin) ==
  CASE kind = "hypercube" -> IF n = 0 THEN {} ELSE BitVectors(n)
    [] kind = "extended"  -> BitVectors(n)
    [] kind = "single"    -> IF n = 0 THEN {} ELSE Sphere(origin, 1)
    [] kind = "sphere"    -> Sphere(origin, r)

\* membership and size, for dimensions where the set itself is too large to build
InTarget(kind, n, r, origin, x) ==
  IsBits(x, n) /\ CASE kind \in {"hypercube", "extended"} -> TRUE
                    [] kind = "single" -> Hamming(origin, x) = 1
                    [] kind = "sphere" -> Hamming(origin, x) = r
TargetSize(kind, n, r) ==
  CASE kind = "hypercube" -> IF n = 0 THEN 0 ELSE Pow2(n)
    [] kind = "extended"  -> Pow2(n)
    [] kind = "single"    -> n
    [] kind = "sphere"    -> IF r = 0 THEN 0 ELSE Binom(n, r)

\* the numbers of bits a kind of neighborhood may flip
LegalCount(kind, n, r, k) ==
  CASE kind = "single" -> k = 1
    [] kind = "sphere" -> k = r
    [] kind = "ball"   -> k \in 1..r
    [] kind = "sbm"    -> k \in 1..n
    [] kind = "sbm0"   -> k \in 0..n

LegalFlips(kind, n, r, f) ==
  /\ Distinct(f) /\ \A k \in DOMAIN f : f[k] \in 0..(n - 1)
  /\ LegalCount(kind, n, r, Len(f))
=============================================================================
