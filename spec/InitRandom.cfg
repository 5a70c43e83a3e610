INIT Init
NEXT NextOrDone
CONSTANT Mode = "random"
CONSTANT Depth = 14
INVARIANT Same
CHECK_DEADLOCK FALSE
