SPECIFICATION Spec
INVARIANT ValuesRight
INVARIANT AllServed
INVARIANT AsSequential
PROPERTY Follows
PROPERTY Ends
CONSTANT N = 2
CONSTANT T = 2
CONSTANT Shared = FALSE
CHECK_DEADLOCK FALSE
