INIT Init
NEXT NextOrDone
CONSTANT Mode = "short"
CONSTANT Depth = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
