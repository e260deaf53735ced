INIT Init
NEXT Next
INVARIANTS TotalIsSum NonNegative
VIEW View
ACTION_CONSTRAINT Emit
