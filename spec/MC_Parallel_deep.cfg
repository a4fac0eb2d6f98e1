SPECIFICATION Spec
INVARIANT ValuesRight
INVARIANT AllServed
INVARIANT AsSequential
PROPERTY Follows
CONSTANT N = 3
CONSTANT T = 3
CONSTANT Shared = FALSE
CHECK_DEADLOCK FALSE
