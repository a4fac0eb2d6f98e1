--------------------------- MODULE BenchmarksTrace ---------------------------
(* Evaluations, announcements, files and transforms of the real functions.   *)
EXTENDS Benchmarks, TraceLib
VARIABLE i

\* the points of a record: listed, or all of them in index order
Points(r) == IF Has(r, "xs") THEN r.xs ELSE [u \in 1..Pow2(r.n) |-> BvOf(u - 1, r.n)]
ValuesOk(f, pts, ys) ==
  /\ Len(ys) = Len(pts)
  /\ IF f.fn = "longpath" /\ f.n <= 10
     THEN LET P == LongPathSeq(f.n, f.p) IN \A k \in DOMAIN ys : ys[k] = LongPath(pts[k], f.p, P)
     ELSE \A k \in DOMAIN ys : ys[k] = Val(f, pts[k])

\* ---- C08
NkStructure(r) ==
  /\ Len(r.f.nb) = r.f.n /\ Len(r.f.tab) = r.f.n
  /\ \A k \in 1..r.f.n : /\ Len(r.f.nb[k]) = r.K + 1 /\ Distinct(r.f.nb[k])
                         /\ (k - 1) \in SeqToSet(r.f.nb[k])
                         /\ SeqToSet(r.f.nb[k]) \subseteq 0..(r.f.n - 1)
                         /\ Len(r.f.tab[k]) = Pow2(r.K + 1)
SatStructure(r) ==
  /\ Len(r.f.c) = r.m
  /\ \A c \in DOMAIN r.f.c : /\ Len(r.f.c[c]) = r.k
                             /\ Distinct([j \in 1..r.k |-> Abs(r.f.c[c][j])])
                             /\ \A j \in 1..r.k : Abs(r.f.c[c][j]) \in 1..r.f.n
LongRange(r) ==
  LET Dist(a, b) == IF r.periodic THEN Min2(Abs(a - b), r.n - Abs(a - b)) ELSE Abs(a - b)
      J(d) == r.scale \div (IF r.alpha = 0 THEN 1 ELSE IF r.alpha = 1 THEN d ELSE d * d)
      f == [fn |-> "walsh2", n |-> r.n, w |-> [k \in 1..r.n |-> 0],
            q |-> [a \in 1..r.n |-> [b \in 1..(a - 1) |-> J(Dist(a, b))]]]
  IN  ValuesOk(f, Points(r), r.ys)

Distances(type, pts) == [a \in DOMAIN pts |-> [b \in DOMAIN pts |-> CityDistance(type, pts[a], pts[b])]]
SymmetricOf(low, n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 0 ELSE low[Max2(a, b)][Min2(a, b)]]]

NoConflict(board) ==
  /\ \A p \in (1..9) \X (1..9) : \A q \in (1..9) \X (1..9) :
       (p # q /\ board[p[1]][p[2]] # 0 /\ board[p[1]][p[2]] = board[q[1]][q[2]]) =>
         /\ p[1] # q[1] /\ p[2] # q[2]
         /\ ~((p[1] - 1) \div 3 = (q[1] - 1) \div 3 /\ (p[2] - 1) \div 3 = (q[2] - 1) \div 3)
Empty(board) == Cardinality({p \in (1..9) \X (1..9) : board[p[1]][p[2]] = 0})

DefOk(r) ==
  CASE r.e = "values"  -> r.size = Size(r.f) /\ ValuesOk(r.f, Points(r), r.ys)
    [] r.e = "legal"   -> r.ok = Legal(r.fn, r.n, r.p)
    [] r.e = "merit"   -> \A k \in DOMAIN r.ys :          \* n^2 / (2 E), in 1e-4
                            LET E == -Labs(Points(r)[k]) IN Abs(r.ys[k] * 2 * E - r.n * r.n * 10000) <= 2 * E
    [] r.e = "sinus"   -> \A k \in DOMAIN r.ys : Abs(r.ys[k] - SinusCancellation(r.xs[k], r.sines)) <= 20
    [] r.e = "nk"      -> NkStructure(r) /\ r.size = r.f.n /\ ValuesOk(r.f, Points(r), r.ys)
    [] r.e = "sat"     -> /\ SatStructure(r) /\ r.size = r.f.n /\ ValuesOk(r.f, Points(r), r.ys)
                          /\ (Len(r.planted) > 0 => Val(r.f, r.planted) = r.m)
    [] r.e = "range"   -> \A k \in DOMAIN r.w : r.w[k] \in r.lo..r.hi
    [] r.e = "longrange" -> LongRange(r)
    [] r.e = "wgen"    -> r.ys[1] = Sum(r.w) /\ r.size = r.n    \* the zero vector sees every coefficient with sign +
    [] r.e = "sudoku"  -> /\ r.nv = Empty(r.board)
                          /\ \A k \in DOMAIN r.vs : r.ys[k] = Sudoku(r.board, r.vs[k])
    [] r.e = "sudokurand" -> Empty(r.board) = r.c /\ NoConflict(r.board)
    [] r.e = "tsp"     -> LET D == Distances(r.type, r.pts)
                          IN  r.size = Len(r.pts) /\ \A k \in DOMAIN r.perms : r.ys[k] = -TourLength(D, r.perms[k])
    [] r.e = "tspgen"  -> LET D == SymmetricOf(r.low, r.n)
                          IN  r.size = r.n /\ \A k \in DOMAIN r.perms : r.ys[k] = -TourLength(D, r.perms[k])
    [] OTHER -> FALSE

\* ---- C07
MaxOk(r) ==
  CASE r.e = "max"  -> /\ r.known => (r.max = MaxSet(SeqToSet(r.ys)))
                       /\ (r.threw <=> ~r.known)
                       /\ (Announces(r.f) => r.known)
                       /\ ValuesOk(r.f, Points(r), r.ys)
                       /\ (Has(r, "glob") => \A k \in DOMAIN r.glob : r.glob[k] = (r.ys[k] = r.max))
    \* larger domains: the formula (checked on the definitions in MC_Benchmarks), attained at one of the points
    [] r.e = "bigmax" -> /\ r.known /\ r.max = MaxFormula(r.f)
                         /\ ValuesOk(r.f, r.xs, r.ys) /\ (\E k \in DOMAIN r.ys : r.ys[k] = r.max)
                         /\ \A k \in DOMAIN r.glob : r.glob[k] = (r.ys[k] = r.max)
    [] r.e = "local" -> LET f == r.f IN
                       \A k \in DOMAIN r.loc : r.loc[k] =
                          (\A y \in {FlipSet(r.xs[k], S) : S \in kSubset(r.r, 0..(f.n - 1))} : Val(f, y) <= Val(f, r.xs[k]))
    [] r.e = "lpknown" -> r.known = (Log2(r.p) + r.n \div r.p <= 53) /\ (r.threw <=> ~r.known) /\ (r.known => r.last)
    [] OTHER -> FALSE

\* ---- C06: chains of incremental evaluations
IncOk(r) ==
  CASE r.e = "inc" -> /\ r.v = Val(r.f, r.x)
                      /\ r.r = Val(r.f, FlipSet(r.x, SeqToSet(r.flips)))
    [] r.e = "chain" ->   \* flips applied one after the other from x, values vs reported after each, full the full evaluation at the end
         LET n == Len(r.fl)
             at == FoldLeft(LAMBDA acc, F : Append(acc, FlipSet(acc[Len(acc)], SeqToSet(F))), <<r.x>>, r.fl)
         IN  /\ r.announces
             /\ \A k \in 1..n : r.vs[k] = r.sign * Val(r.f, at[k + 1])
             /\ r.v = r.sign * Val(r.f, r.x) /\ r.full = r.vs[n]
    [] OTHER -> FALSE

\* ---- C09: files
CnfClauses(L) == SelectSeq(L, LAMBDA l : l.k = "cl")
CnfP(L) == SelectSeq(L, LAMBDA l : l.k = "p")
CnfOk(L, nae) ==
  LET body == SelectSeq(L, LAMBDA l : l.k \in {"p", "cl", "white"})
      cl == CnfClauses(L)
  IN  /\ Len(CnfP(L)) = 1 /\ body[1].k = "p"
      /\ body[1].ok /\ body[1].n > 0 /\ body[1].m > 0
      /\ \A k \in DOMAIN body : body[k].k # "white"
      /\ \A k \in DOMAIN cl : /\ cl[k].end /\ ~cl[k].junk
                              /\ \A j \in DOMAIN cl[k].l : Abs(cl[k].l[j]) <= body[1].n
                              /\ (nae => Len(cl[k].l) = 3)
      /\ Len(cl) = body[1].m
QuboOk(L) ==
  LET body == SelectSeq(L, LAMBDA l : l.k \in {"p", "el"})
      el == SelectSeq(L, LAMBDA l : l.k = "el")
  IN  /\ Len(SelectSeq(L, LAMBDA l : l.k = "p")) = 1 /\ body[1].k = "p"
      /\ body[1].ok /\ body[1].zero = 0 /\ body[1].dim > 0 /\ body[1].nd >= 0 /\ body[1].no >= 0
      /\ \A k \in DOMAIN el : el[k].ok /\ el[k].i \in 0..(body[1].dim - 1) /\ el[k].j \in el[k].i..(body[1].dim - 1) /\ el[k].v # 0
      /\ Len(SelectSeq(el, LAMBDA l : l.i = l.j)) = body[1].nd
      /\ Len(SelectSeq(el, LAMBDA l : l.i # l.j)) = body[1].no
SudokuOk(L) == /\ Len(L) >= 9
               /\ \A k \in 1..9 : Len(L[k]) >= 9 /\ \A j \in 1..9 : L[k][j] \in 0..9
TspOk(r) == /\ r.tsp /\ r.type \in {"ATT", "EUC_2D"} /\ r.dim > 0 /\ r.section
            /\ \A k \in DOMAIN r.nodes : r.nodes[k].ok /\ r.nodes[k].i \in 1..r.dim
            /\ {r.nodes[k].i : k \in DOMAIN r.nodes} = 1..r.dim
TspPoint(r, c) == LET last == MaxSet({k \in DOMAIN r.nodes : r.nodes[k].i = c}) IN <<r.nodes[last].x, r.nodes[last].y>>

FileOk(r) ==
  CASE r.e = "trip"   -> /\ r.size1 = r.size0 /\ r.inc1 = r.inc0 /\ r.known1 = r.known0 /\ r.max1 = r.max0
                         /\ r.b = r.a                       \* exact values, as text
    [] r.e = "tripdef" -> r.size = Size(r.f) /\ ValuesOk(r.f, Points(r), r.ys)
    [] r.e = "maptrip" -> r.b = r.a /\ r.inp1 = r.inp0 /\ r.out1 = r.out0 /\ r.sur1 = r.sur0
    [] r.e = "refused" -> r.ok = FALSE
    [] r.e = "cnf"    -> /\ r.ok = CnfOk(r.lines, r.nae)
                         /\ r.ok => LET f == [fn |-> IF r.nae THEN "nae" ELSE "maxsat", n |-> CnfP(r.lines)[1].n,
                                              c |-> [k \in DOMAIN CnfClauses(r.lines) |-> CnfClauses(r.lines)[k].l]]
                                    IN  r.n = f.n /\ ValuesOk(f, Points(r), r.ys)
    [] r.e = "qubo"   -> /\ r.ok = QuboOk(r.lines)
                         /\ r.ok => LET el == SelectSeq(r.lines, LAMBDA l : l.k = "el")
                                        f == [fn |-> "qubo", n |-> SelectSeq(r.lines, LAMBDA l : l.k = "p")[1].dim,
                                              el |-> [k \in DOMAIN el |-> <<el[k].i, el[k].j, el[k].v>>]]
                                    IN  r.n = f.n /\ ValuesOk(f, Points(r), r.ys)
    [] r.e = "sudokufile" -> /\ r.ok = SudokuOk(r.lines)
                             /\ r.ok => LET b == [k \in 1..9 |-> [j \in 1..9 |-> r.lines[k][j]]]
                                        IN  /\ r.nv = Empty(b)
                                            /\ \A k \in DOMAIN r.vs : r.ys[k] = Sudoku(b, r.vs[k])
    [] r.e = "tspfile" -> /\ r.ok = TspOk(r)
                          /\ r.ok => LET D == Distances(r.type, [c \in 1..r.dim |-> TspPoint(r, c)])
                                     IN  r.size = r.dim /\ \A k \in DOMAIN r.perms : r.ys[k] = -TourLength(D, r.perms[k])
    [] r.e = "factorfile" -> /\ r.ok = (Len(r.digits) > 0 /\ (\A k \in DOMAIN r.digits : r.digits[k] \in 0..9) /\ ~r.extra)
                             /\ r.ok => LET v == FoldLeft(LAMBDA a, d : 10 * a + d, 0, r.digits)
                                            f == [fn |-> "factor", number |-> BvOf(v, Log2(v) + 1)]
                                        IN  r.n = Size(f) /\ ValuesOk(f, Points(r), r.ys)
    [] OTHER -> FALSE

\* ---- C10
TermsOk(t, c, n) == /\ Distinct([k \in DOMAIN t |-> t[k][1]])
                    /\ \A k \in DOMAIN t : IsBits(t[k][1], n) /\ t[k][2] # 0
                    /\ \A k \in DOMAIN t : t[k][2] = c[Index(t[k][1]) + 1]
                    /\ Len(t) = Cardinality({u \in DOMAIN c : c[u] # 0})
WalshOk(r) ==
  CASE r.e = "walsh" -> LET c == Coefficients(r.ys, r.n)
                        IN  /\ TermsOk(r.direct, c, r.n) /\ TermsOk(r.fast, c, r.n)
                            /\ \A k \in DOMAIN r.ys : r.back[k] = r.ys[k] * Pow2(r.n)
    \* a sum of distinct characters has these characters as its only terms (checked in MC_Benchmarks)
    [] r.e = "sparse" -> LET want == {<<t[1], t[2] * Pow2(r.n)>> : t \in SeqToSet(r.terms)} IN
                         /\ SeqToSet(r.fast) = want /\ Len(r.fast) = Cardinality(want)
                         /\ r.slow => SeqToSet(r.direct) = want /\ Len(r.direct) = Cardinality(want)
    [] OTHER -> FALSE

\* ---- C05: trees of wrappers; a node says what it does to its argument
RECURSIVE TVal(_, _)
Expr(k, v) == CASE k = "x" -> v [] k = "2*x+1" -> 2 * v + 1 [] k = "x*x" -> v * v [] k = "-x" -> -v
                [] k = "max(x,3)" -> Max2(v, 3) [] k = "abs(x)-7" -> Abs(v) - 7 [] k = "x>2" -> IF v > 2 THEN 1 ELSE 0
                [] k = "if(x<0,0,x^2)" -> IF v < 0 THEN 0 ELSE v * v
AffineImage(m, x) == [k \in DOMAIN m.b |-> Xor(m.b[k], BvDot(m.M[k], x))]
TVal(t, x) == CASE t.op = "base" -> Val(t.f, x)
                [] t.op = "neg"  -> -TVal(t.a, x)
                [] t.op = "expr" -> Expr(t.k, TVal(t.a, x))
                [] t.op = "map"  -> TVal(t.a, AffineImage(t.m, x))
                [] t.op \in {"ctl", "cache"} -> TVal(t.a, x)
RECURSIVE TSize(_)
TSize(t) == CASE t.op = "base" -> t.f.n
              [] t.op = "map"  -> t.m.cols
              [] OTHER -> TSize(t.a)
RECURSIVE TKnown(_)
TKnown(t) == CASE t.op = "base" -> Announces(t.f)
               [] t.op \in {"ctl", "cache"} -> TKnown(t.a)
               [] t.op = "map"  -> TKnown(t.a) /\ t.m.sur
               [] OTHER -> FALSE
RECURSIVE TMax(_)
TMax(t) == IF t.op = "base" THEN MaxFormula(t.f) ELSE TMax(t.a)
RECURSIVE TInc(_)
TInc(t) == CASE t.op = "base" -> Incremental(t.f)
             [] t.op \in {"ctl", "neg"} -> TInc(t.a)
             [] OTHER -> FALSE
Mean(s, N) == Sum(s) \div N
WrapOk(r) ==
  CASE r.e = "tree" -> LET t == r.t n == TSize(t) IN
                       /\ r.n = n
                       /\ LET P == Points(r) IN Len(r.ys) = Len(P) /\ \A u \in DOMAIN P : r.ys[u] = TVal(t, P[u])
                       /\ r.safe = r.ys
                       /\ r.known => IF Has(r, "xs") THEN (TKnown(t) => r.max = TMax(t)) /\ \A u \in DOMAIN r.ys : r.ys[u] <= r.max
                                     ELSE r.max = MaxSet(SeqToSet(r.ys))
                       /\ (TKnown(t) => r.known) /\ (r.threw <=> ~r.known)
                       /\ r.inc = TInc(t)
                       /\ \A k \in DOMAIN r.incs : r.incs[k][4] = TVal(t, FlipSet(r.incs[k][1], SeqToSet(r.incs[k][3])))
    \* noise before evaluation: the value of a legal neighbor of x; every such value shows up
    [] r.e = "prior" -> LET nbs == {FlipSet(r.x, S) : S \in {T \in SUBSET (0..(r.n - 1)) : Cardinality(T) \in r.lo..r.hi}}
                        IN  /\ SeqToSet(r.seen) = {Val(r.f, y) : y \in nbs}
                            /\ ~r.inc /\ r.size = r.n
                            /\ r.known = Announces(r.f) /\ (r.known => r.max = MaxFormula(r.f))
    \* additive noise: mean and standard deviation over N samples, in hundredths
    [] r.e = "gauss" -> LET v == 100 * Val(r.f, r.x)
                        IN  Abs(r.mean - v) <= 20 /\ r.sd \in (r.stddev - 20)..(r.stddev + 20) /\ ~r.inc /\ ~r.known /\ r.size = r.f.n
    [] r.e = "badmap" -> r.threw
    [] r.e = "badexpr" -> r.threw
    [] OTHER -> FALSE

Mode == IOEnv.VF_MODE
Ok(r) == CASE Mode = "C05" -> WrapOk(r) [] Mode = "C06" -> IncOk(r) [] Mode = "C07" -> MaxOk(r)
           [] Mode = "C08" -> DefOk(r) [] Mode = "C09" -> FileOk(r) [] Mode = "C10" -> WalshOk(r)
Init == i = 1
Next == i <= NRec /\ Ok(Trace[i]) /\ i' = i + 1
=============================================================================
