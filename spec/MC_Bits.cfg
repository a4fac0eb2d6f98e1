INIT Init
NEXT Next
INVARIANT Laws
CONSTANT MaxBits = 4
