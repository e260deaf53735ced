INIT Init
NEXT Next
INVARIANTS AcceptedIsRideable Emit
CONSTANTS
 Alpha = {"1","2","3"}
 MaxNodes = 3
 MaxStops = 2
