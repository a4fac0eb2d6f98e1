----------------------------- MODULE LinearTrace -----------------------------
(* Calls of the real bit-matrix, transvection and map code.                  *)
EXTENDS Gf2, TraceLib
VARIABLE i

LinOk(r) ==
  CASE r.e = "multiply"  -> r.r = MatVec(r.M, r.x)
    [] r.e = "transpose" -> r.r = Transpose(r.M) /\ r.r2 = r.r /\ r.tt = r.M
    [] r.e = "identity"  -> r.r = Identity(r.n) /\ r.r2 = r.r
    [] r.e = "isid"      -> r.r = (r.M = Identity(Len(r.M)))
    [] r.e = "isupper"   -> r.r = UpperTriangular(r.M)
    [] r.e = "isvalid"   -> r.r = (\A k \in DOMAIN r.M : IsBits(r.M[k], Len(r.M[1])) /\ Len(r.M[1]) > 0)
    [] r.e = "issquare"  -> r.r = (Rows(r.M) = Cols(r.M)) /\ r.nr = Rows(r.M) /\ r.nc = Cols(r.M)
    [] r.e = "swap"      -> r.r = [k \in 1..Rows(r.M) |-> IF k = r.a + 1 THEN r.M[r.b + 1]
                                                          ELSE IF k = r.b + 1 THEN r.M[r.a + 1] ELSE r.M[k]]
    [] r.e = "addrows"   -> r.r = [r.M EXCEPT ![r.a + 1] = BvXor(@, r.M[r.b + 1])]
    [] r.e = "addcols"   -> r.r = [k \in 1..Rows(r.M) |-> [r.M[k] EXCEPT ![r.a + 1] = Xor(@, r.M[k][r.b + 1])]]
    [] r.e = "setcol"    -> r.r = [k \in 1..Rows(r.M) |-> [r.M[k] EXCEPT ![r.a + 1] = r.x[k]]]
    [] r.e = "clear"     -> r.r = [k \in 1..Rows(r.M) |-> ZeroVec(Cols(r.M))]
    [] r.e = "resize"    -> Rows(r.r) = r.nr /\ \A k \in 1..r.nr : Len(r.r[k]) = r.nc
    [] r.e = "random"    -> Rows(r.r) = r.nr /\ \A k \in 1..r.nr : IsBits(r.r[k], r.nc)
    [] r.e = "echelon"   -> Echelon(r.r) /\ Rows(r.r) = Rows(r.M) /\ SameRowSpace(r.M, r.r)
    [] r.e = "rank"      -> r.r = Rank(r.M)
    [] r.e = "solve"     -> /\ r.ok = Invertible(r.A)
                            /\ r.ok => (MatVec(r.A, r.x) = r.b /\ r.after = Identity(Rows(r.A)))
    [] r.e = "invert"    -> /\ r.ok = Invertible(r.M)
                            /\ r.ok => (MatMul(r.M, r.N) = Identity(Rows(r.M)) /\ r.after = Identity(Rows(r.M)))
    [] r.e = "dispm"     -> r.r = r.M
    [] OTHER -> FALSE

TvOkRec(r) ==
  CASE r.e = "tv"       -> /\ r.valid = (r.tv[1] >= 0 /\ r.tv[2] >= 0 /\ r.tv[1] # r.tv[2])
                           /\ r.validn = TvOk(r.tv, r.n)
    [] r.e = "tvvec"    -> r.r = TvVec(r.x, r.tv)
    [] r.e = "tvmat"    -> r.r = TvMat(r.M, r.tv)
    [] r.e = "commute"  -> r.r = TvCommute(r.a, r.b, r.n) /\ r.d = TvDisjoint(r.a, r.b)
    [] r.e = "tsvec"    -> r.r = TsVec(r.x, r.ts) /\ TsVec(r.r, r.inv) = r.x /\ r.back = r.x
    [] r.e = "tsmat"    -> r.r = TsMat(r.M, r.ts)
    [] r.e = "tsvalid"  -> /\ r.r = (\A k \in DOMAIN r.ts : r.ts[k][1] >= 0 /\ r.ts[k][2] >= 0 /\ r.ts[k][1] # r.ts[k][2])
                           /\ r.rn = (\A k \in DOMAIN r.ts : TvOk(r.ts[k], r.n))
    [] r.e = "tsrand"   -> SampleOk(r.mode, r.ts, r.n, r.t)
    [] r.e = "noncom"   -> TvOk(r.tv, r.n) /\ ~Commuting(<<r.tv, r.a>>)
    [] r.e = "tvsupp"   -> Cardinality(SeqToSet(r.seen)) = r.n * (r.n - 1) /\ \A k \in DOMAIN r.seen : TvOk(r.seen[k], r.n)
    [] r.e = "nonsupp"  -> SeqToSet(r.seen) =
                             {<<p, q>> : p \in 0..(r.n - 1), q \in 0..(r.n - 1)} \cap
                             {tv \in SeqToSet(r.seen) \cup {<<r.a[2], q>> : q \in 0..(r.n - 1)} \cup {<<q, r.a[1]>> : q \in 0..(r.n - 1)} :
                                TvOk(tv, r.n) /\ ~Commuting(<<tv, r.a>>)}
    \* the affine map on a sampled sequence (read back from its display): a bijection, with its inverse
    [] r.e = "tsmap"    -> /\ SampleOk(r.mode, r.ts, r.n, r.t)
                           /\ r.inp = r.n /\ r.out = r.n /\ r.sur
                           /\ IsBits(r.b, r.n)
                           /\ \A k \in DOMAIN r.xs : /\ r.ys[k] = BvXor(TsVec(r.xs[k], r.ts), r.b)
                                                     /\ r.back[k] = r.xs[k]
                           /\ Rank(TsMat(Identity(r.n), r.ts)) = r.n
    [] OTHER -> FALSE

\* images of the unit vectors and of zero determine an affine map
AffineAll(r) ==
  LET cols == [k \in 1..r.inp |-> BvXor(r.img[k], r.img0)]
  IN  /\ IsBits(r.img0, r.out)
      /\ \A k \in 1..r.inp : IsBits(r.img[k], r.out)
      /\ \A k \in DOMAIN r.xs : r.ys[k] = BvXor(Combine(cols, r.xs[k], r.out), r.img0)
      /\ r.sur = (Rank(cols) = r.out)
      /\ (r.want => r.sur)

MapOk(r) ==
  CASE r.e = "refused"   -> r.r
    [] r.e = "translation" -> /\ r.inp = r.n /\ r.out = r.n /\ r.sur
                              /\ \A k \in DOMAIN r.xs : r.ys[k] = BvXor(r.xs[k], r.b)
    [] r.e = "permutation" -> /\ r.inp = r.n /\ r.out = r.n /\ r.sur
                              /\ \A k \in 1..r.n : Weight(r.img[k]) = 1
                              /\ Weight(r.img0) = 0
                              /\ AffineAll(r)
    [] r.e = "linear"      -> r.inp = r.cols /\ r.out = r.rows /\ Weight(r.img0) = 0 /\ AffineAll(r)
    [] r.e = "affine"      -> r.inp = r.cols /\ r.out = r.rows /\ AffineAll(r)
    [] r.e = "composition" -> /\ r.inp = r.ninp /\ r.out = r.nout
                              /\ \A k \in DOMAIN r.xs : r.zs[k] = r.ys[k]
                              /\ (r.sur = (r.osur /\ r.isur))
    [] r.e = "surjall"     -> IF r.sur THEN r.out <= 4 /\ SeqToSet(r.ys) = BitVectors(r.out) ELSE TRUE
    [] r.e = "injection"   -> /\ r.inp = Len(r.pos) /\ r.out = r.n
                              /\ r.sur = (Len(r.pos) = r.n)
                              /\ \A k \in DOMAIN r.xs : /\ Len(r.ys[k]) = r.n
                                                        /\ \A j \in 1..Len(r.pos) : r.ys[k][r.pos[j] + 1] = r.xs[k][j]
    [] r.e = "projection"  -> /\ r.out = Len(r.pos) /\ r.inp = r.n /\ r.sur
                              /\ \A k \in DOMAIN r.xs : r.ys[k] = [j \in 1..Len(r.pos) |-> r.xs[k][r.pos[j] + 1]]
    [] r.e = "projinj"     -> r.ys = r.xs
    [] OTHER -> FALSE

Mode == IOEnv.VF_MODE
Ok(r) == CASE Mode = "C13" -> LinOk(r) [] Mode = "C14" -> TvOkRec(r) [] Mode = "C15" -> MapOk(r)

Init == i = 1
Next == i <= NRec /\ Ok(Trace[i]) /\ i' = i + 1
=============================================================================
