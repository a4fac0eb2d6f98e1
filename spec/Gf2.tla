-------------------------------- MODULE Gf2 --------------------------------
(* Linear algebra over GF(2).  A matrix is a sequence of rows.               *)
EXTENDS Bits

Rows(M) == Len(M)
Cols(M) == Len(M[1])
ZeroVec(n) == [k \in 1..n |-> 0]
Identity(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
Transpose(M) == [c \in 1..Cols(M) |-> [r \in 1..Rows(M) |-> M[r][c]]]
MatVec(M, x) == [r \in 1..Rows(M) |-> BvDot(M[r], x)]
MatMul(A, B) == LET T == Transpose(B) IN [r \in 1..Rows(A) |-> [c \in 1..Cols(B) |-> BvDot(A[r], T[c])]]
UpperTriangular(M) == \A r \in 1..Rows(M) : \A c \in 1..Min2(r - 1, Cols(M)) : M[r][c] = 0

(* Insertion of a vector in a basis: reduce by the leading positions in      *)
(* order of insertion, keep what is left if it is not zero.                  *)
Reduce(basis, v) == FoldLeft(LAMBDA w, b : IF w[b.lead] = 1 THEN BvXor(w, b.v) ELSE w, v, basis)
Insert(basis, v) ==
  LET w == Reduce(basis, v) IN
  IF \A k \in 1..Len(w) : w[k] = 0 THEN basis
  ELSE Append(basis, [lead |-> MinSet(Ones(w)), v |-> w])
Basis(vs) == FoldLeft(Insert, <<>>, vs)
Rank(M) == Len(Basis(M))
Invertible(M) == Rows(M) = Cols(M) /\ Rank(M) = Rows(M)
SameRowSpace(A, B) == LET r == Rank(A) IN Rank(B) = r /\ Rank(A \o B) = r

Echelon(M) ==
  LET lead(r) == IF Ones(M[r]) = {} THEN Cols(M) + 1 ELSE MinSet(Ones(M[r]))
  IN  \A r \in 1..(Rows(M) - 1) : lead(r) < lead(r + 1) \/ Ones(M[r + 1]) = {}
NonZeroRows(M) == Cardinality({r \in 1..Rows(M) : Ones(M[r]) # {}})

(* linear combination of the vectors in vs selected by x                     *)
Combine(vs, x, n) == FoldLeft(LAMBDA acc, k : IF x[k] = 1 THEN BvXor(acc, vs[k]) ELSE acc,
                              ZeroVec(n), [k \in 1..Len(vs) |-> k])

(* Transvections: add component c to component r (zero-based)                *)
TvOk(tv, n) == tv[1] \in 0..(n - 1) /\ tv[2] \in 0..(n - 1) /\ tv[1] # tv[2]
TvVec(x, tv) == IF x[tv[2] + 1] = 1 THEN [x EXCEPT ![tv[1] + 1] = 1 - @] ELSE x
TvMat(M, tv) == [M EXCEPT ![tv[1] + 1] = BvXor(@, M[tv[2] + 1])]
TsVec(x, ts) == FoldLeft(TvVec, x, ts)
TsMat(M, ts) == FoldLeft(TvMat, M, ts)
TvCommute(a, b, n) == TsMat(Identity(n), <<a, b>>) = TsMat(Identity(n), <<b, a>>)
TvDisjoint(a, b) == {a[1], a[2]} \cap {b[1], b[2]} = {}

TsDim(ts, n0) == n0
Commuting(ts) == {ts[k][1] : k \in DOMAIN ts} \cap {ts[k][2] : k \in DOMAIN ts} = {}
MaxCommuting(n) == IF n % 2 = 0 THEN (n \div 2) * (n \div 2) ELSE (n \div 2) * ((n \div 2) + 1)

(* What a sampling mode promises of a sequence of requested length t         *)
SampleOk(mode, ts, n, t) ==
  /\ \A k \in DOMAIN ts : TvOk(ts[k], n)
  /\ CASE mode = 0 -> Len(ts) = t
       [] mode = 1 -> /\ Len(ts) = Min2(t, MaxCommuting(n))
                      /\ Commuting(ts)
                      /\ Distinct(ts)
       [] mode = 2 -> /\ Len(ts) = Min2(t, n - 1)
                      /\ Distinct([k \in DOMAIN ts |-> ts[k][1]])
                      /\ Commuting(ts)
       [] mode = 3 -> /\ Len(ts) = Min2(t, n - 1)
                      /\ Distinct([k \in DOMAIN ts |-> ts[k][2]])
                      /\ Commuting(ts)
       [] mode = 4 -> /\ Len(ts) = Min2(t, n \div 2)
                      /\ \A j, k \in DOMAIN ts : j # k => TvDisjoint(ts[j], ts[k])
       [] mode = 5 -> /\ Len(ts) = t
                      /\ \A k \in 1..(Len(ts) - 1) : ~Commuting(<<ts[k], ts[k + 1]>>)
=============================================================================
