INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS NBits = 1
          Depth = 3
          StackHeight = 3
