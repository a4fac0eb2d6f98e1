------------------------------ MODULE Benchmarks ------------------------------
(* The published definitions of the benchmark functions.  An instance is a   *)
(* record f whose field fn names the definition; Val(f, x) is its value, an   *)
(* integer (Scale(f) times the real value when the definition is fractional). *)
EXTENDS Bits

\* ---- lengths of the uniform prefix and suffix
HeadLen(x, b) == Cardinality({k \in 1..Len(x) : \A j \in 1..k : x[j] = b})
TailLen(x, b) == Cardinality({k \in 1..Len(x) : \A j \in k..Len(x) : x[j] = b})

\* ones followed by zeros only
OnPrefixPath(x) == \A j \in 1..(Len(x) - 1) : x[j + 1] = 1 => x[j] = 1

Uniform(x) == \A j \in 1..Len(x) : x[j] = x[1]
RECURSIVE Hiff(_)
Hiff(x) == IF Len(x) = 1 THEN 1
           ELSE LET h == Len(x) \div 2
                    s == Hiff(SubSeq(x, 1, h)) + Hiff(SubSeq(x, h + 1, Len(x)))
                IN  IF Uniform(x) THEN Len(x) + s ELSE s

Trap(x, t) ==
  LET size == Len(x) \div t
      One(b) == LET w == Weight(SubSeq(x, (b - 1) * size + 1, b * size))
                IN  IF w = size THEN size ELSE size - w - 1
  IN  Sum([b \in 1..t |-> One(b)])

Jump(x, gap) == LET w == Weight(x) n == Len(x)
                IN  IF w < n /\ w > n - gap THEN 0 ELSE w
DeceptiveJump(x, gap) == LET w == Weight(x) n == Len(x)
                         IN  IF w < n /\ w > n - gap THEN n - w ELSE gap + w

FourPeaks(x, t) == LET h == HeadLen(x, 1) z == TailLen(x, 0)
                   IN  Max2(h, z) + (IF h > t /\ z > t THEN Len(x) ELSE 0)
SixPeaks(x, t) == LET h0 == HeadLen(x, 0) h1 == HeadLen(x, 1) t0 == TailLen(x, 0) t1 == TailLen(x, 1)
                  IN  Max2(Max2(h0, h1), Max2(t0, t1))
                      + (IF (h0 > t /\ t1 > t) \/ (h1 > t /\ t0 > t) THEN Len(x) ELSE 0)

\* the k-long path of dimension n as the sequence of its points
RECURSIVE LongPathSeq(_, _)
LongPathSeq(n, k) ==
  IF n = 0 THEN << <<>> >>
  ELSE LET P == LongPathSeq(n - k, k)
           zeros == [j \in 1..k |-> 0]
           ones == [j \in 1..k |-> 1]
       IN  [j \in 1..Len(P) |-> zeros \o P[j]]
           \o [i \in 1..(k - 1) |-> [j \in 1..k |-> IF j > k - i THEN 1 ELSE 0] \o P[Len(P)]]
           \o [j \in 1..Len(P) |-> ones \o P[Len(P) + 1 - j]]
LongPath(x, k, path) ==
  LET at == {j \in DOMAIN path : path[j] = x}
  IN  IF at # {} THEN CHOOSE j \in at : TRUE
      ELSE -(Len(x) * Weight(SubSeq(x, 1, k)) + Weight(SubSeq(x, k + 1, Len(x))))

\* the position of x on the path without the path itself, 0 if it is not on it (agrees with the above: MC_Benchmarks)
LongLen(n, k) == k * Pow2(n \div k) - k + 1
RECURSIVE LongPos(_, _)
LongPos(x, k) ==
  IF x = <<>> THEN 1
  ELSE LET b == SubSeq(x, 1, k) rest == SubSeq(x, k + 1, Len(x)) len == LongLen(Len(rest), k)
           w == Weight(b)
       IN  IF w = 0 THEN LongPos(rest, k)
           ELSE IF w = k THEN LET q == LongPos(rest, k) IN IF q = 0 THEN 0 ELSE len + (k - 1) + (len + 1 - q)
           ELSE IF b = [j \in 1..k |-> IF j > k - w THEN 1 ELSE 0] /\ LongPos(rest, k) = len THEN len + w ELSE 0
LongPathAt(x, k) == LET q == LongPos(x, k)
                    IN  IF q > 0 THEN q ELSE -(Len(x) * Weight(SubSeq(x, 1, k)) + Weight(SubSeq(x, k + 1, Len(x))))

Spin(b) == 1 - 2 * b
Labs(x) == -Sum([k \in 1..(Len(x) - 1) |->
                   LET c == Sum([i \in 1..(Len(x) - k) |-> Spin(x[i]) * Spin(x[i + k])]) IN c * c])

Linear(x, w) == Sum([i \in DOMAIN w |-> w[i] * x[i]])
Walsh1(x, w) == Sum([i \in DOMAIN w |-> w[i] * Spin(x[i])])
\* quad[i] lists the coefficients with the indexes before i
Walsh2(x, w, quad) == Walsh1(x, w)
  + Sum([i \in DOMAIN w |-> Sum([j \in 1..(i - 1) |-> quad[i][j] * Spin(x[i]) * Spin(x[j])])])
\* terms: sequence of <<feature, coefficient>>
WalshExp(x, terms) == Sum([k \in DOMAIN terms |-> terms[k][2] * Spin(BvDot(x, terms[k][1]))])

Ising1(x, J, h, periodic) ==
  Sum([i \in 1..(Len(x) - 1) |-> J[i] * Spin(x[i]) * Spin(x[i + 1])])
  + (IF periodic THEN J[Len(x)] * Spin(x[Len(x)]) * Spin(x[1]) ELSE 0)
  + Walsh1(x, h)

\* R[i][j], B[i][j]: couplings to the right and below, rows by columns, row-major bits
Ising2(x, R, B, h, periodic) ==
  LET nr == Len(h) nc == Len(h[1])
      S(i, j) == Spin(x[(i - 1) * nc + j])
      Right(i, j) == IF j < nc THEN R[i][j] * S(i, j) * S(i, j + 1)
                     ELSE IF periodic THEN R[i][j] * S(i, j) * S(i, 1) ELSE 0
      Below(i, j) == IF i < nr THEN B[i][j] * S(i, j) * S(i + 1, j)
                     ELSE IF periodic THEN B[i][j] * S(i, j) * S(1, j) ELSE 0
  IN  Sum([i \in 1..nr |-> Sum([j \in 1..nc |-> Right(i, j) + Below(i, j) + h[i][j] * S(i, j)])])

\* neighbors[i] are zero-based positions, the first one is the least significant
Nk(x, nb, tab) ==
  Sum([i \in DOMAIN nb |-> tab[i][1 + Sum([j \in DOMAIN nb[i] |-> x[nb[i][j] + 1] * Pow2(j - 1)])]])

LitTrue(x, l) == IF l > 0 THEN x[l] = 1 ELSE x[-l] = 0
MaxSat(x, clauses) == Cardinality({c \in DOMAIN clauses : \E j \in DOMAIN clauses[c] : LitTrue(x, clauses[c][j])})
Nae3Sat(x, clauses) == Cardinality({c \in DOMAIN clauses :
    LET t == Cardinality({j \in DOMAIN clauses[c] : LitTrue(x, clauses[c][j])}) IN t # 0 /\ t # 3})

Partition(x, a) == -Abs(Sum([i \in DOMAIN a |-> a[i] * Spin(x[i])]))
Product(s) == FoldLeft(LAMBDA p, q : p * q, 1, s)
EqualProducts(x, a) == -Abs(Product([i \in DOMAIN a |-> IF x[i] = 1 THEN a[i] ELSE 1])
                            - Product([i \in DOMAIN a |-> IF x[i] = 0 THEN a[i] ELSE 1]))

\* el: sequence of <<i, j, value>> as in the file (zero-based); the value is negated
Qubo(x, el) == -Sum([k \in DOMAIN el |-> el[k][3] * x[el[k][1] + 1] * x[el[k][2] + 1]])

\* ---- natural numbers as little-endian bit sequences of any length
BitAt(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, c) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<1>>)
  ELSE LET s == BitAt(a, k) + BitAt(b, k) + c IN <<s % 2>> \o AddFrom(a, b, k + 1, s \div 2)
AddBits(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE MulBits(_, _)
MulBits(a, b) == IF b = <<>> THEN <<>>
                 ELSE LET rest == MulBits(<<0>> \o a, Tail(b))
                      IN  IF b[1] = 1 THEN AddBits(a, rest) ELSE rest
\* the bits of both factors are written most significant first
Factorization(x, number) ==
  LET size == Len(number)
      f1 == (size + 1) \div 2
      p == MulBits(Reverse(SubSeq(x, 1, f1)), Reverse(SubSeq(x, f1 + 1, Len(x))))
  IN  -Sum([k \in 1..Max2(size, Len(p)) |-> IF BitAt(p, k) # BitAt(number, k) THEN k ELSE 0])
FactorizationSize(number) == (Len(number) + 1) \div 2 + (Len(number) - 1)

\* signed numbers of 9 bits: sign, then least significant bit first; in hundredths
Signed9(x, k) ==
  LET d == SubSeq(x, 9 * (k - 1) + 1, 9 * k)
      m == Sum([j \in 1..8 |-> (IF d[1] = 0 THEN d[j + 1] ELSE 1 - d[j + 1]) * Pow2(j - 1)])
  IN  IF d[1] = 0 THEN m ELSE -(m + 1)
Cancellation(x) ==
  -Sum([k \in 1..(Len(x) \div 9) |-> Abs(Sum([j \in 1..k |-> Signed9(x, j)]))])
\* with a sine: in 1e-4; sines tabulates sin for the arguments -400..400 in hundredths
SinAt(sines, a) == LET q == a \div 100 r == a % 100
                   IN  (sines[q + 401] * (100 - r) + sines[q + 402] * r) \div 100
RECURSIVE SinChain(_, _, _)
SinChain(x, k, sines) == IF k = 1 THEN 100 * Signed9(x, 1)
                         ELSE 100 * Signed9(x, k) + SinAt(sines, SinChain(x, k - 1, sines))
SinusCancellation(x, sines) == -Sum([k \in 1..(Len(x) \div 9) |-> Abs(SinChain(x, k, sines))])

\* ---- functions of integers and permutations
\* board: 9 rows, 0 where empty; v: the digits minus one of the empty cells, row by row
SudokuFilled(board, v) ==
  LET Before(i, j) == Cardinality({p \in (1..9) \X (1..9) :
                        board[p[1]][p[2]] = 0 /\ (p[1] < i \/ (p[1] = i /\ p[2] < j))})
  IN  [i \in 1..9 |-> [j \in 1..9 |-> IF board[i][j] = 0 THEN v[Before(i, j) + 1] + 1 ELSE board[i][j]]]
Unevenness(cells) == Sum([d \in 1..9 |-> Abs(Cardinality({k \in 1..9 : cells[k] = d}) - 1)])
Sudoku(board, v) ==
  LET b == SudokuFilled(board, v)
  IN  -(Sum([i \in 1..9 |-> Unevenness(b[i])])
        + Sum([j \in 1..9 |-> Unevenness([i \in 1..9 |-> b[i][j]])])
        + Sum([q \in 1..9 |-> Unevenness([k \in 1..9 |->
                 b[3 * ((q - 1) \div 3) + 1 + (k - 1) \div 3][3 * ((q - 1) % 3) + 1 + ((k - 1) % 3)]])]))

RECURSIVE NearestRoot(_, _)
\* t such that t - 1/2 <= sqrt(d) < t + 1/2
NearestRoot(d, t) == IF 4 * d < (2 * t + 1) * (2 * t + 1) THEN t ELSE NearestRoot(d, t + 1)
RECURSIVE CeilRoot10(_, _)
\* the least t with t >= sqrt(d / 10)
CeilRoot10(d, t) == IF 10 * t * t >= d THEN t ELSE CeilRoot10(d, t + 1)
CityDistance(type, p, q) ==
  LET d == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
  IN  IF type = "EUC_2D" THEN NearestRoot(d, 0) ELSE CeilRoot10(d, 0)
TourLength(D, perm) ==
  Sum([k \in DOMAIN perm |-> D[perm[k] + 1][perm[IF k = Len(perm) THEN 1 ELSE k + 1] + 1]])

\* ---- by name
Val(f, x) ==
  CASE f.fn = "onemax"   -> Weight(x)
    [] f.fn = "leading"  -> HeadLen(x, 1)
    [] f.fn = "needle"   -> IF Weight(x) = Len(x) THEN 1 ELSE 0
    [] f.fn = "hiff"     -> Hiff(x)
    [] f.fn = "ridge"    -> IF OnPrefixPath(x) THEN Len(x) + Weight(x) ELSE Len(x) - Weight(x)
    [] f.fn = "plateau"  -> IF Weight(x) = Len(x) THEN Len(x) + 2
                            ELSE IF OnPrefixPath(x) THEN Len(x) + 1 ELSE Len(x) - Weight(x)
    [] f.fn = "trap"     -> Trap(x, f.p)
    [] f.fn = "jump"     -> Jump(x, f.p)
    [] f.fn = "djump"    -> DeceptiveJump(x, f.p)
    [] f.fn = "four"     -> FourPeaks(x, f.p)
    [] f.fn = "six"      -> SixPeaks(x, f.p)
    [] f.fn = "longpath" -> IF f.n > 10 THEN LongPathAt(x, f.p) ELSE LongPath(x, f.p, LongPathSeq(f.n, f.p))
    [] f.fn = "labs"     -> Labs(x)
    [] f.fn = "linear"   -> Linear(x, f.w)
    [] f.fn = "walsh1"   -> Walsh1(x, f.w)
    [] f.fn = "walsh2"   -> Walsh2(x, f.w, f.q)
    [] f.fn = "walsh"    -> WalshExp(x, f.t)
    [] f.fn = "ising1"   -> Ising1(x, f.J, f.h, f.periodic)
    [] f.fn = "ising2"   -> Ising2(x, f.R, f.B, f.h, f.periodic)
    [] f.fn = "nk"       -> Nk(x, f.nb, f.tab)
    [] f.fn = "maxsat"   -> MaxSat(x, f.c)
    [] f.fn = "nae"      -> Nae3Sat(x, f.c)
    [] f.fn = "partition" -> Partition(x, f.w)
    [] f.fn = "products" -> EqualProducts(x, f.w)
    [] f.fn = "qubo"     -> Qubo(x, f.el)
    [] f.fn = "factor"   -> Factorization(x, f.number)
    [] f.fn = "cancel"   -> Cancellation(x)
    [] f.fn = "table"    -> f.ys[Index(x) + 1]

\* size of the domain
Size(f) == CASE f.fn = "factor" -> FactorizationSize(f.number)
             [] f.fn = "ising2" -> Len(f.h) * Len(f.h[1])
             [] OTHER -> f.n

\* announced maxima
Announces(f) == f.fn \in {"onemax", "leading", "needle", "hiff", "ridge", "plateau", "trap", "jump", "djump",
                          "four", "six", "longpath", "linear", "walsh1", "cancel"}
RECURSIVE Log2(_)
Log2(m) == IF m <= 1 THEN 0 ELSE 1 + Log2(m \div 2)
MaxFormula(f) ==
  CASE f.fn \in {"onemax", "leading", "trap", "jump"} -> f.n
    [] f.fn = "needle"   -> 1
    [] f.fn = "hiff"     -> (Log2(f.n) + 1) * f.n
    [] f.fn = "ridge"    -> 2 * f.n
    [] f.fn = "plateau"  -> f.n + 2
    [] f.fn = "djump"    -> f.n + f.p
    [] f.fn \in {"four", "six"} -> 2 * f.n - f.p - 1
    [] f.fn = "longpath" -> f.p * Pow2(f.n \div f.p) - f.p + 1
    [] f.fn = "linear"   -> Sum([i \in DOMAIN f.w |-> IF f.w[i] > 0 THEN f.w[i] ELSE 0])
    [] f.fn = "walsh1"   -> Sum([i \in DOMAIN f.w |-> Abs(f.w[i])])
    [] f.fn = "cancel"   -> 0

Incremental(f) == f.fn \in {"onemax", "linear", "walsh1", "ising1", "ising2"}

\* legal parameters
Legal(fn, n, p) ==
  CASE fn = "hiff"     -> n > 0 /\ Pow2(Log2(n)) = n
    [] fn = "trap"     -> p > 0 /\ n % p = 0
    [] fn = "jump"     -> p >= 1
    [] fn = "djump"    -> p >= 1
    [] fn \in {"four", "six"} -> p <= n \div 2 - 1
    [] fn = "longpath" -> p >= 2 /\ n % p = 0
    [] fn = "cancel"   -> n % 9 = 0
    [] OTHER -> n > 0
\* ---- C10: the transform, as the function from features to sums
RECURSIVE Butterfly(_)
Butterfly(s) == IF Len(s) = 1 THEN s
                ELSE LET h == Len(s) \div 2
                         a == Butterfly(SubSeq(s, 1, h)) b == Butterfly(SubSeq(s, h + 1, Len(s)))
                     IN  [k \in 1..Len(s) |-> IF k <= h THEN a[k] + b[k] ELSE a[k - h] - b[k - h]]
Coefficients(ys, n) == IF n <= 5
                       THEN [u \in 1..Pow2(n) |-> Sum([x \in 1..Pow2(n) |-> ys[x] * Spin(BvDot(BvOf(x - 1, n), BvOf(u - 1, n)))])]
                       ELSE Butterfly(ys)
=============================================================================
