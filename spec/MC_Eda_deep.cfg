SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT InMargins
INVARIANT EveryPointPossible
INVARIANT SelectionRight
INVARIANT CountsRight
INVARIANT Monotone
PROPERTY BestGrows
CONSTANT N = 2
CONSTANT n = 3
CONSTANT MaxGen = 2
CONSTANT Rates = {100, 900}
CONSTANT Tables3 = TRUE
CHECK_DEADLOCK FALSE
