--------------------------- MODULE PrimitivesTrace ---------------------------
(* Bit-vector, sparse-vector, permutation and random-sampling primitives:    *)
(* each record is one call of the real code; the specification gives its     *)
(* result.  Machine integers are sequences of 16-bit chunks, lowest first.   *)
EXTENDS Bits, TraceLib
VARIABLES i, pool   \* pool: results seen so far in a support scenario

Chunks(x) == LET nch == 4
                 bit(k) == IF k <= Len(x) THEN x[k] ELSE 0
             IN  [c \in 1..nch |-> SumOver(1..16, LAMBDA k : bit(16 * (c - 1) + k) * Pow2(k - 1))]
BitsOf(ch, n) == [k \in 1..n |-> (ch[((k - 1) \div 16) + 1] \div Pow2((k - 1) % 16)) % 2]

Bool01(b) == IF b THEN 1 ELSE 0
Chars(x) == [k \in 1..Len(x) |-> IF x[k] = 0 THEN 48 ELSE 49]
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
IsPerm(s) == SeqToSet(s) = 0..(Len(s) - 1)
SparseValid(s) == Sorted(s) /\ \A k \in DOMAIN s : s[k] >= 0

Choose(n, k) == Cardinality({S \in SUBSET (1..n) : Cardinality(S) = k})
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN 1 ELSE n * Factorial(n - 1)

Ok(r) ==
  CASE r.e = "weight"   -> r.r = Weight(r.x) /\ r.rb = Weight(r.x)
    [] r.e = "zero"     -> r.r = (Weight(r.x) = 0)
    [] r.e = "valid"    -> r.r = (\A k \in DOMAIN r.x : r.x[k] \in {0, 1})
    [] r.e = "distance" -> r.r = Hamming(r.x, r.y)
    [] r.e = "dot"      -> r.r = BvDot(r.x, r.y) /\ r.rb = BvDot(r.x, r.y)
    [] r.e = "add"      -> r.r2 = BvXor(r.x, r.y) /\ r.r3 = BvXor(r.x, r.y) /\ r.src = r.y
    [] r.e = "self"     -> r.r = [k \in 1..Len(r.x) |-> 0] /\ r.r3 = r.r
    [] r.e = "flip1"    -> r.r = FlipSet(r.x, {r.k})
    [] r.e = "flips"    -> r.r = FlipSet(r.x, SeqToSet(r.F))
    [] r.e = "clear"    -> r.r = [k \in 1..Len(r.x) |-> 0]
    [] r.e = "packed"   -> r.r = r.x /\ r.b = r.x
    [] r.e = "toint"    -> r.r = Chunks(r.x)
    [] r.e = "slice"    -> r.r = Chunks(SubSeq(r.x, r.s + 1, r.t))
    [] r.e = "fromint"  -> r.r = BitsOf(r.u, r.n)
    [] r.e = "string"   -> r.s = Chars(r.x) /\ r.r = r.x /\ r.rs = r.x
    [] r.e = "lines"    -> r.r = r.x
    [] r.e = "sparse"   -> r.r = SparseValid(r.s) /\ r.rn = (SparseValid(r.s) /\ \A k \in DOMAIN r.s : r.s[k] < r.n)
    [] r.e = "perm"     -> r.r = IsPerm(r.s)
    [] r.e = "ident"    -> r.r = [k \in 1..r.n |-> k - 1]
    [] r.e = "permrand" -> Len(r.r) = r.n /\ IsPerm(r.r)
    [] r.e = "shuffle"  -> SeqToSet(r.r) = SeqToSet(r.x) /\ Len(r.r) = Len(r.x)
    [] r.e = "rand"     -> IsBits(r.r, r.n)
    [] r.e = "randw"    -> IsBits(r.r, r.n) /\ Weight(r.r) = r.k
    [] r.e = "uniform"  -> \A k \in DOMAIN r.v : r.v[k] >= 0 /\ r.v[k] < 1000000
    [] r.e = "join"     -> r.r = r.x
    \* support: after enough samples every legal outcome has been seen, and nothing else
    [] r.e = "support"  -> /\ \A k \in DOMAIN r.seen : IsBits(r.seen[k], r.n)
                           /\ Cardinality(SeqToSet(r.seen)) =
                                (IF r.k < 0 THEN Pow2(r.n) ELSE Choose(r.n, r.k))
                           /\ (r.k >= 0 => \A k \in DOMAIN r.seen : Weight(r.seen[k]) = r.k)
    [] r.e = "psupport" -> /\ \A k \in DOMAIN r.seen : Len(r.seen[k]) = r.n /\ IsPerm(r.seen[k])
                           /\ Cardinality(SeqToSet(r.seen)) = Factorial(r.n)
    [] OTHER -> FALSE

Init == i = 1 /\ pool = {}
Next == /\ i <= NRec
        /\ Ok(Trace[i])
        /\ i' = i + 1
        /\ UNCHANGED pool
=============================================================================
