INIT Init
NEXT Next
INVARIANT Sound
CONSTANT Points = {1, 2, 3}
CONSTANT Values = {1, 2, 3}
CONSTANT Lambda = 2
CONSTANT MaxEval = 6
CONSTANT Eager = FALSE
CONSTANT Restarts = TRUE
CHECK_DEADLOCK FALSE
