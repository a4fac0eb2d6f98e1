INIT Init
NEXT Next
INVARIANT Sound
PROPERTY AlwaysLegal
PROPERTY Monotone
CONSTANT N = 3
CONSTANT Values = {1, 2}
CONSTANT Algs = {"rls", "walk", "sa", "first", "steepest", "complete"}
CONSTANT MaxEval = 5
CONSTANT Patience = 2
CONSTANT Limit = 2
CHECK_DEADLOCK FALSE
