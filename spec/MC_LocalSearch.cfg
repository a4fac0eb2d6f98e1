INIT Init
NEXT Next
INVARIANT Sound
PROPERTY AlwaysLegal
PROPERTY Monotone
CONSTANT N = 2
CONSTANT Values = {1, 2, 3}
CONSTANT Algs = {"rls", "walk", "sa", "first", "steepest", "complete"}
CONSTANT MaxEval = 7
CONSTANT Patience = 2
CONSTANT Limit = 2
CHECK_DEADLOCK FALSE
