SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT InMargins
INVARIANT EveryPointPossible
INVARIANT SelectionRight
INVARIANT CountsRight
INVARIANT Monotone
PROPERTY BestGrows
CONSTANT N = 2
CONSTANT n = 3
CONSTANT MaxGen = 2
CONSTANT Rates = {300}
CONSTANT Tables3 = FALSE
CHECK_DEADLOCK FALSE
