INIT Init
NEXT NextOrDone
CONSTANT Mode = "perm"
CONSTANT Depth = 5
INVARIANT Same
CHECK_DEADLOCK FALSE
