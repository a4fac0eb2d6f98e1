SPECIFICATION Spec
INVARIANT Counted
INVARIANT CanGoOn
INVARIANT PointIsKept
INVARIANT Updates
INVARIANT Chain
CONSTANT n = 2
CONSTANT MaxTime = 9
CHECK_DEADLOCK FALSE
