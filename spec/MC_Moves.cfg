INIT Init
NEXT Next
INVARIANT Refines
PROPERTY NeverRepeats
CONSTANT N = 4
CONSTANT Histories = 2
CHECK_DEADLOCK FALSE
