INIT Init
NEXT Next
INVARIANT OneAnswer
VIEW View
ACTION_CONSTRAINT Emit
