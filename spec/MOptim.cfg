INIT Init
NEXT Next
CONSTANT MaxRun = 3
INVARIANTS TypeOK AtMostOneMore OnlyWhileNeeded EndsForAReason Best ReturnedIsOptimal
ACTION_CONSTRAINT Emit
