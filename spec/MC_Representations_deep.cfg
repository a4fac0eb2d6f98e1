INIT Init
NEXT Next
CONSTANTS MaxD = 260
 MaxF = 7
 MaxK = 5
INVARIANTS InRange Monotone FullIsOnto CoarseIsEven StartsLow FloatRange PermOnto
CHECK_DEADLOCK FALSE
