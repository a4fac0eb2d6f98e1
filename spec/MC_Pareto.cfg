SPECIFICATION Spec
INVARIANT Exact
INVARIANT TruncationOk
INVARIANT SomeKept
PROPERTY Terminates
CONSTANT Size = 4
CONSTANT Values = {0, 1}
CONSTANT Objectives = 2
CHECK_DEADLOCK FALSE

INVARIANT LocalOk
