SPECIFICATION Spec
INVARIANT Counted
INVARIANT CanGoOn
INVARIANT PointIsKept
INVARIANT Updates
INVARIANT Chain
CONSTANT n = 3
CONSTANT MaxTime = 4
CHECK_DEADLOCK FALSE
