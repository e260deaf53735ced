INIT Init
NEXT Next
INVARIANTS AcceptedIsRideable Emit
CONSTANTS
 Alpha = {"1","2"}
 MaxNodes = 2
 MaxStops = 2
