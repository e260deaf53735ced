INIT Init
NEXT Next
INVARIANTS Monotone Optimal LinesUsed Report
