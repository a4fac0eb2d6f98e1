------------------------------- MODULE MC_Gf2 -------------------------------
(* Laws of the linear-algebra specification on every small matrix: rank by   *)
(* elimination is the dimension of the row space counted by brute force, a   *)
(* square matrix has an inverse exactly at full rank, transvections generate *)
(* bijections, the syntactic commutation rule is commutation of products.    *)
EXTENDS Gf2
CONSTANTS MaxRows, MaxCols
VARIABLES M, a, b

Tvs(n) == {<<r, c>> : r \in 0..(n - 1), c \in 0..(n - 1)} \ {<<r, r>> : r \in 0..(n - 1)}
Init == \E r \in 1..MaxRows, c \in 1..MaxCols :
          /\ M \in [1..r -> [1..c -> {0, 1}]]
          /\ IF r > 1 THEN a \in Tvs(r) /\ b \in Tvs(r) ELSE a = <<0, 0>> /\ b = <<0, 0>>
Next == UNCHANGED <<M, a, b>>

RowSpace == {Combine(M, x, Cols(M)) : x \in BitVectors(Rows(M))}
Laws ==
  /\ Cardinality(RowSpace) = Pow2(Rank(M))
  /\ Rank(Transpose(M)) = Rank(M)
  /\ Transpose(Transpose(M)) = M
  /\ Rows(M) = Cols(M) =>
       (Invertible(M) <=> \A x \in BitVectors(Cols(M)) : MatVec(M, x) = ZeroVec(Rows(M)) => x = ZeroVec(Cols(M)))
  /\ Rows(M) > 1 =>
       /\ SameRowSpace(M, TvMat(M, a))
       /\ TvMat(TvMat(M, a), a) = M
       /\ TvCommute(a, b, Rows(M)) <=> Commuting(<<a, b>>)
       /\ TsMat(M, <<a, b>>) = MatMul(TsMat(Identity(Rows(M)), <<a, b>>), M)
       /\ \A x \in BitVectors(Rows(M)) : TsVec(x, <<a, b>>) = MatVec(TsMat(Identity(Rows(M)), <<a, b>>), x)
=============================================================================
