------------------------------- MODULE MC_Bits -------------------------------
(* The laws of GF(2)^n that the primitives' specification has to satisfy,    *)
(* for every triple of small vectors.                                        *)
EXTENDS Bits
CONSTANT MaxBits
VARIABLES x, y, F
Init == \E n \in 0..MaxBits : x \in BitVectors(n) /\ y \in BitVectors(n) /\ F \in SUBSET (0..(n - 1))
Next == UNCHANGED <<x, y, F>>
n == Len(x)
Zero == [k \in 1..n |-> 0]
Laws ==
  /\ Hamming(x, y) = Weight(BvXor(x, y))
  /\ Cardinality(Diff(x, y)) = Hamming(x, y)
  /\ FlipSet(x, Diff(x, y)) = y
  /\ FlipSet(FlipSet(x, F), F) = x
  /\ Diff(x, FlipSet(x, F)) = F
  /\ BvXor(x, x) = Zero /\ BvXor(x, y) = BvXor(y, x)
  /\ BvDot(x, y) = BvDot(y, x)
  /\ BvDot(BvXor(x, y), FlipSet(x, F)) = (BvDot(x, FlipSet(x, F)) + BvDot(y, FlipSet(x, F))) % 2
  /\ BvOf(Index(x), n) = x /\ Index(x) \in 0..(Pow2(n) - 1)
  /\ (Index(x) = Index(y)) <=> (x = y)
=============================================================================
