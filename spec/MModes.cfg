INIT Init
NEXT Next
INVARIANTS UniqueNames UsableSmall
VIEW View
ACTION_CONSTRAINT Emit
