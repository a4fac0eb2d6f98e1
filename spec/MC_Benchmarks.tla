---------------------------- MODULE MC_Benchmarks -----------------------------
(* On the definitions themselves: the announced maximum is attained and      *)
(* never exceeded, and the functions have the structure they are used for.   *)
EXTENDS Benchmarks
CONSTANT MaxN
VARIABLE f
W == {-2, -1, 0, 1, 3}
Insts ==
  UNION {{[fn |-> g, n |-> m, p |-> 0] : g \in {"onemax", "leading", "needle", "ridge", "plateau"}} : m \in 1..MaxN}
  \cup {g \in [fn : {"hiff", "trap", "jump", "djump", "four", "six", "longpath"}, n : 1..MaxN, p : 0..MaxN] : Legal(g.fn, g.n, g.p)}
  \cup {[fn |-> "cancel", n |-> 9, p |-> 0]}
  \cup UNION {{[fn |-> g, n |-> m, w |-> w] : g \in {"linear", "walsh1", "partition"}, w \in [1..m -> W]} : m \in 1..3}
Init == f \in Insts
Next == UNCHANGED f
All == BitVectors(f.n)
MaximumTrue == Announces(f) => /\ \E x \in All : Val(f, x) = MaxFormula(f)
                               /\ \A x \in All : Val(f, x) <= MaxFormula(f)
\* symmetries of the definitions
Complement(x) == [k \in 1..Len(x) |-> 1 - x[k]]
Symmetry ==
  /\ f.fn \in {"hiff", "partition"} => \A x \in All : Val(f, x) = Val(f, Complement(x))
  /\ f.fn = "walsh1" => \A x \in All : Val(f, x) = -Val(f, Complement(x))
  /\ f.fn = "linear" => \A x \in All : Val(f, x) + Val(f, Complement(x)) = Sum(f.w)
\* the long path is a path: its points are distinct and consecutive ones differ in one bit
PathOk == f.fn = "longpath" =>
  LET P == LongPathSeq(f.n, f.p)
  IN  /\ Distinct(P) /\ Len(P) = MaxFormula(f)
      /\ \A j \in 1..(Len(P) - 1) : Hamming(P[j], P[j + 1]) = 1
      /\ \A x \in All : LongPathAt(x, f.p) = LongPath(x, f.p, P)
\* a sum of two distinct characters has exactly their features in its transform, scaled by the size of the domain
Character(u, n) == [x \in 1..Pow2(n) |-> Spin(BvDot(BvOf(x - 1, n), BvOf(u - 1, n)))]
TransformOk == \A n \in 1..3 : \A u, v \in 1..Pow2(n) : \A a, b \in {-1, 2} :
  LET cu == Character(u, n) cv == Character(v, n)
      ys == [x \in 1..Pow2(n) |-> (a * cu[x]) + (b * cv[x])]
      want == [w \in 1..Pow2(n) |-> Pow2(n) * ((IF w = u THEN a ELSE 0) + (IF w = v THEN b ELSE 0))]
  IN  Coefficients(ys, n) = want /\ (IF n = 3 THEN Butterfly(ys) = want ELSE TRUE)
ASSUME TransformOk
=============================================================================
