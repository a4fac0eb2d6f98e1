INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS MaxRows = 3
 MaxCols = 2
