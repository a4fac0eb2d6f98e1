SPECIFICATION Spec
INVARIANT ValuesRight
INVARIANT AllServed
INVARIANT AsSequential
CONSTANT N = 2
CONSTANT T = 2
CONSTANT Shared = TRUE
CHECK_DEADLOCK FALSE
