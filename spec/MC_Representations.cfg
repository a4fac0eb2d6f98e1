INIT Init
NEXT Next
CONSTANTS MaxD = 40
 MaxF = 5
 MaxK = 4
INVARIANTS InRange Monotone FullIsOnto CoarseIsEven StartsLow FloatRange PermOnto
CHECK_DEADLOCK FALSE
