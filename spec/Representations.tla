--------------------------- MODULE Representations ---------------------------
(* How slices of a bit vector denote typed values, and how adapted functions *)
(* of several variables read one bit vector.  Natural numbers that may not   *)
(* fit are handled as little endian bit sequences.                           *)
EXTENDS Bits

RECURSIVE BitLength(_)
BitLength(d) == IF d = 0 THEN 0 ELSE 1 + BitLength(d \div 2)
CeilLog2(n) == BitLength(n - 1)                       \* n >= 1
ZeroBits(k) == [j \in 1..k |-> 0]
Slice(x, start, len) == SubSeq(x, start + 1, start + len)

\* a <= b for bit sequences of the same length, most significant last
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, k) == IF k = 0 THEN TRUE
                   ELSE IF a[k] # b[k] THEN a[k] < b[k]
                   ELSE LexLeq(a, b, k - 1)

\* ---- integers in [lower, lower + D], D in binary without leading zero: the distance to lower
DecodeInt(D, s) ==
  LET u == ZeroBits(Len(D) - Len(s)) \o s
  IN  IF LexLeq(u, D, Len(D)) THEN u ELSE D
IntSizeBySize(D, k) == Min2(k, Len(D))
\* the spacing 2^(exact - size) of the values is at most the precision, and no bit is wasted
IntSizeByPrecision(D, p, size) ==
  /\ size \in 1..Len(D)
  /\ Len(D) - size <= 29 /\ Pow2(Len(D) - size) <= p
  /\ (size > 1 => Pow2(Len(D) - size + 1) > p)

\* ---- floats in [a, a + L), scaled by 2^size; the first bit is the most significant one
BigEndian(s) == FoldLeft(LAMBDA acc, b : 2 * acc + b, 0, s)
DecodeFloat(a, L, s) == a * Pow2(Len(s)) + L * BigEndian(s)
\* L / 2^size <= num / den, with at most one bit more than necessary
FloatSizeByPrecision(L, num, den, size) ==
  /\ size >= 1
  /\ L * den <= num * Pow2(size)
  /\ (size > 2 => L * den > num * Pow2(size - 2))

\* ---- listed values: the index of the sorted list
SortedValues(vs) == SortSeq(vs, LAMBDA x, y : x < y)
DecodeSorted(sorted, s) == sorted[1 + Index(DecodeInt(BvOf(Len(sorted) - 1, CeilLog2(Len(sorted))), s))]
DecodeSet(vs, s) == DecodeSorted(SortedValues(vs), s)

\* ---- categories: a complete table (function of all bit strings) onto 0..n-1
CategoryTable(n, vals) == {vals[k] : k \in DOMAIN vals} = 0..(n - 1)
LinearCodeSize(n) == Pow2(CeilLog2(n)) - 1

\* ---- permutations: elements sorted by their keys
Keys(bits, n, es) == [k \in 1..n |-> Index(Slice(bits, (k - 1) * es, es))]
PermElementSize(n, extra) == CeilLog2(n) + extra
IsPerm(p, n) == Len(p) = n /\ SeqToSet(p) = 0..(n - 1)
DecodesPerm(bits, n, es, p) ==
  LET key == Keys(bits, n, es)
  IN  IsPerm(p, n) /\ \A k \in 1..(n - 1) : key[p[k] + 1] <= key[p[k + 1] + 1]

\* ---- representations as records, and what an adapted function sees of a bit vector
RepSize(r) ==
  CASE r.k = "bool"  -> 1
    [] r.k = "int"   -> IntSizeBySize(BvOf(r.b - r.a, BitLength(r.b - r.a)), r.size)
    [] r.k = "float" -> r.size
    [] r.k = "set"   -> CeilLog2(Len(r.v))
    [] r.k = "complex" -> r.re.size + r.im.size
    [] r.k = "cat"   -> LinearCodeSize(r.n)
    [] r.k = "perm"  -> r.n * PermElementSize(r.n, r.extra)
\* the value of a variable: integers and listed values times 64, floats times 64 (sizes up to 6), complex as a pair
Unit == 64
FloatValue(r, s) == DecodeFloat(r.a, r.l, s) * Pow2(6 - r.size)
RepDenotes(r, s, v) ==
  CASE r.k = "bool"  -> v = s[1]
    [] r.k = "int"   -> v = Unit * (r.a + Index(DecodeInt(BvOf(r.b - r.a, BitLength(r.b - r.a)), s)))
    [] r.k = "float" -> v = FloatValue(r, s)
    [] r.k = "set"   -> v = DecodeSet(r.v, s)
    [] r.k = "complex" -> /\ v[1] = FloatValue(r.re, SubSeq(s, 1, r.re.size))
                          /\ v[2] = FloatValue(r.im, SubSeq(s, r.re.size + 1, Len(s)))
    [] r.k = "cat"   -> v \in 0..(r.n - 1)
    [] r.k = "perm"  -> DecodesPerm(s, r.n, PermElementSize(r.n, r.extra), v)
TotalSize(reps) == Sum([k \in 1..Len(reps) |-> RepSize(reps[k])])
StartOf(reps, k) == TotalSize(SubSeq(reps, 1, k - 1))
\* every variable is decoded from its own consecutive slice
Sees(reps, bv, vars) ==
  /\ Len(vars) = Len(reps)
  /\ Len(bv) = TotalSize(reps)
  /\ \A k \in 1..Len(reps) : RepDenotes(reps[k], Slice(bv, StartOf(reps, k), RepSize(reps[k])), vars[k])

\* ---- expressions: <<"num", c>>, <<"var", name>>, <<"neg", e>>, <<op, e1, e2>>; env maps names to integers
RECURSIVE Expr(_, _)
Expr(e, env) ==
  CASE e[1] = "num" -> e[2]
    [] e[1] = "var" -> env[e[2]]
    [] e[1] = "neg" -> -Expr(e[2], env)
    [] e[1] = "+"   -> Expr(e[2], env) + Expr(e[3], env)
    [] e[1] = "-"   -> Expr(e[2], env) - Expr(e[3], env)
    [] e[1] = "*"   -> Expr(e[2], env) * Expr(e[3], env)
RECURSIVE VarsOf(_)
VarsOf(e) == CASE e[1] = "num" -> {} [] e[1] = "var" -> {e[2]} [] e[1] = "neg" -> VarsOf(e[2])
               [] OTHER -> VarsOf(e[2]) \cup VarsOf(e[3])
Convert(conv, v) == CASE conv = "id" -> v [] conv = "abs" -> Abs(v) [] conv = "oppabs" -> -Abs(v)

\* ---- declarations: the declaration of a name seen last counts
LastDecl(ds, name) == ds[MaxSet({k \in DOMAIN ds : ds[k].name = name})]
DeclNames(ds) == {ds[k].name : k \in DOMAIN ds}
\* the representation of a variable: the declared one if it has the expected kind, else the default one
Chosen(ds, name, kinds, dflt) ==
  IF name \in DeclNames(ds) /\ LastDecl(ds, name).t \in kinds THEN LastDecl(ds, name).rep ELSE dflt
=============================================================================
