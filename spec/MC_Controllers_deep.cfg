INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS NBits = 1
          Depth = 4
          StackHeight = 2
