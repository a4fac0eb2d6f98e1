INIT Init
NEXT Next
INVARIANT MaximumTrue
INVARIANT Symmetry
INVARIANT PathOk
CONSTANT MaxN = 6
