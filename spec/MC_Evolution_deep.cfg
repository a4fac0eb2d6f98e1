INIT Init
NEXT Next
INVARIANT SortOk
INVARIANT TournamentOk
INVARIANT Possible
CONSTANT Size = 5
CONSTANT Values = {1, 2, 3}
CONSTANT Mu = 2
CHECK_DEADLOCK FALSE
