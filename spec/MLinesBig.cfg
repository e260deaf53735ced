INIT Init
NEXT Next
INVARIANTS Consistent NoOrphans
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT MaxRoutes = 5
