INIT Init
NEXT Next
INVARIANT HoldsExactly
INVARIANT NeverUnknown
VIEW View
ACTION_CONSTRAINT Emit
