INIT Init
NEXT Next
INVARIANT Sound
CONSTANT Points = {1, 2, 3}
CONSTANT Values = {1, 2, 3}
CONSTANT Lambda = 2
CONSTANT MaxEval = 8
CONSTANT Eager = TRUE
CONSTANT Restarts = FALSE
CHECK_DEADLOCK FALSE
