------------------------------ MODULE RepTrace -------------------------------
(* Decodings and adapted functions recorded from the real code.              *)
EXTENDS Representations, TraceLib
VARIABLES i
vars == <<i>>

Scaled(v) == v            \* values are recorded times Unit
EnvOf(names, vs) == [nm \in SeqToSet(names) |-> vs[CHOOSE k \in DOMAIN names : names[k] = nm]]

Step(r) ==
  CASE r.e = "isize" -> (CASE r.how = "full" -> r.size = Len(r.D)
                           [] r.how = "size" -> r.size = IntSizeBySize(r.D, r.arg)
                           [] r.how = "precision" -> IntSizeByPrecision(r.D, r.arg, r.size))
    [] r.e = "itab"  -> /\ Len(r.vals) = Pow2(r.size)
                        /\ \A k \in DOMAIN r.vals : r.vals[k] = Index(DecodeInt(r.D, BvOf(k - 1, r.size)))
    [] r.e = "idec"  -> r.res = DecodeInt(r.D, r.bits)
    [] r.e = "ftab"  -> /\ Len(r.vals) = Pow2(r.size)
                        /\ \A k \in DOMAIN r.vals : r.vals[k] = DecodeFloat(r.a, r.l, BvOf(k - 1, r.size))
    [] r.e = "fdec"  -> r.val = DecodeFloat(r.a, r.l, r.bits)
    [] r.e = "fsize" -> FloatSizeByPrecision(r.l, r.num, r.den, r.size)
    \* ranks of the values of all strings in increasing binary order
    [] r.e = "frank" -> /\ r.vals[1] = r.lower
                        /\ \A k \in 1..(Len(r.vals) - 1) : r.vals[k] < r.vals[k + 1]
                        /\ r.vals[Len(r.vals)] < r.upper
    [] r.e = "ctab"  -> /\ r.size = (IF r.linear THEN LinearCodeSize(r.n) ELSE CeilLog2(r.n))
                        /\ Len(r.vals) = Pow2(r.size)
                        /\ CategoryTable(r.n, r.vals)
                        /\ (r.linear /\ Pow2(CeilLog2(r.n)) = r.n) =>
                             \* a linear code: the value of a sum is the sum of the values
                             \A k \in DOMAIN r.vals : \A j \in 1..r.size :
                               LET u == k - 1 IN LET w == Pow2(j - 1) IN
                               ((u \div w) % 2 = 0) =>
                                  BvOf(r.vals[k + w], 8) = BvXor(BvOf(r.vals[k], 8), BvOf(r.vals[1 + w], 8))
    [] r.e = "vtab"  -> /\ r.size = CeilLog2(Len(r.values))
                        /\ Len(r.vals) = Pow2(r.size)
                        /\ LET sorted == SortedValues(r.values) IN
                           \A k \in DOMAIN r.vals : r.vals[k] = DecodeSorted(sorted, BvOf(k - 1, r.size))
    \* many categories: all of them and nothing else
    [] r.e = "cbig"  -> /\ r.size = CeilLog2(r.n) /\ r.different = r.n /\ r.top = r.n - 1
                        /\ \A k \in DOMAIN r.some : r.some[k] \in 0..(r.n - 1)
    [] r.e = "clin"  -> /\ r.size = LinearCodeSize(r.n)
                        /\ SeqToSet(r.unit) \cup {r.zero} = 0..(r.n - 1)
                        /\ \A k \in DOMAIN r.vx : r.vx[k] \in 0..(r.n - 1) /\ r.vz[k] \in 0..(r.n - 1)
                        /\ Pow2(CeilLog2(r.n)) = r.n =>
                             /\ r.zero = 0
                             /\ \A k \in DOMAIN r.vx : BvOf(r.vz[k], 9) = BvXor(BvOf(r.vx[k], 9), BvOf(r.vy[k], 9))
    [] r.e = "perm"  -> /\ r.size = r.n * PermElementSize(r.n, r.extra)
                        /\ DecodesPerm(r.bits, r.n, PermElementSize(r.n, r.extra), r.p)
    \* one evaluation of an adapted function: what it was given, what came out, what is described
    [] r.e = "adapt" -> /\ r.size = TotalSize(r.reps)
                        /\ Sees(r.reps, r.bv, r.vars)
                        /\ r.desc = r.vars
                        /\ r.values = r.returned
    \* a parsed function behind an adapter: the description gives the variables, the value is the expression's
    [] r.e = "parsed" ->
         LET reps == [k \in DOMAIN r.names |-> Chosen(r.decls, r.names[k], SeqToSet(r.kinds), r.dflt)]
         IN  /\ Distinct(r.names)
             /\ SeqToSet(r.names) = UNION {VarsOf(r.exprs[k]) : k \in DOMAIN r.exprs}
             /\ r.size = TotalSize(reps)
             /\ Sees(reps, r.bv, r.vars)
             /\ Len(r.ys) = Len(r.exprs)
             /\ \A k \in DOMAIN r.exprs : r.ys[k] = Convert(r.conv, Expr(r.exprs[k], EnvOf(r.names, r.vals)))
             /\ \A k \in DOMAIN r.names : r.vals[k] * r.scale = r.vars[k]
    \* complex variables x: the declarations of x_re and x_im
    [] r.e = "parsedc" ->
         LET part(nm) == Chosen(r.decls, nm, {"double"}, r.dflt)
             reps == [k \in DOMAIN r.names |-> [k |-> "complex", re |-> part(r.res[k]), im |-> part(r.ims[k])]]
         IN  /\ r.size = TotalSize(reps)
             /\ Sees(reps, r.bv, r.vars)
             \* the squared magnitude of the sum of the variables
             /\ LET re == Sum([k \in DOMAIN r.vars |-> r.vars[k][1]])
                    im == Sum([k \in DOMAIN r.vars |-> r.vars[k][2]])
                IN  r.y = r.sign * (re * re + im * im)
    \* parsing declarations: exactly the declared names with the declared parameters
    [] r.e = "decls" -> /\ ~r.refused
                        /\ {r.env[k].name : k \in DOMAIN r.env} = DeclNames(r.decls)
                        /\ Len(r.env) = Cardinality(DeclNames(r.decls))
                        /\ \A k \in DOMAIN r.env : r.env[k] = LastDecl(r.decls, r.env[k].name)
    [] r.e = "faulty" -> r.refused
    [] r.e = "split" -> r.items = r.expected
    [] OTHER -> FALSE

Init == i = 1
Next == /\ i <= NRec
        /\ i' = i + 1
        /\ Step(Trace[i])
=============================================================================
