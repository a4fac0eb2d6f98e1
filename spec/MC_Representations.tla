------------------------- MODULE MC_Representations --------------------------
(* The guarantees of the representations, checked on their definitions.      *)
EXTENDS Representations
CONSTANTS MaxD, MaxF, MaxK
VARIABLES d, size
Bin == BvOf(d, BitLength(d))
Init == d \in 1..MaxD /\ size = 1
Next == size < BitLength(d) /\ size' = size + 1 /\ d' = d
Val(u) == Index(DecodeInt(Bin, BvOf(u, size)))
InRange == \A u \in 0..(Pow2(size) - 1) : Val(u) \in 0..d
Monotone == \A u \in 0..(Pow2(size) - 2) : Val(u) <= Val(u + 1)
FullIsOnto == size = BitLength(d) => {Val(u) : u \in 0..(Pow2(size) - 1)} = 0..d
CoarseIsEven == size < BitLength(d) =>
  \A u \in 0..(Pow2(size) - 1) : Val(u) = Min2(d, u * Pow2(BitLength(d) - size))
StartsLow == Val(0) = 0
FloatRange == size <= MaxF =>
  \A a \in -2..2 : \A l \in 1..3 :
    LET v(u) == DecodeFloat(a, l, BvOf(u, size))
    IN  /\ \A u \in 0..(Pow2(size) - 1) : a * Pow2(size) <= v(u) /\ v(u) < (a + l) * Pow2(size)
        /\ Cardinality({v(u) : u \in 0..(Pow2(size) - 1)}) = Pow2(size)
\* keys of full width make every permutation decodable
PermOnto == (d <= MaxK /\ size = 1) =>
  LET es == PermElementSize(d, 1)
      key(p) == [k \in 1..d |-> CHOOSE j \in 0..(d - 1) : p[j + 1] = k - 1]
      bits(p) == FlattenSeq([k \in 1..d |-> BvOf(key(p)[k], es)])
  IN  \A p \in {q \in [1..d -> 0..(d - 1)] : IsPerm(q, d)} :
        /\ DecodesPerm(bits(p), d, es, p)
        /\ \A q \in {q \in [1..d -> 0..(d - 1)] : IsPerm(q, d)} : DecodesPerm(bits(p), d, es, q) => q = p
=============================================================================
