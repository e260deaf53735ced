INIT Init
NEXT Next
CONSTANT MaxRun = 2
INVARIANTS TypeOK AtMostOneMore OnlyWhileNeeded EndsForAReason Best ReturnedIsOptimal

