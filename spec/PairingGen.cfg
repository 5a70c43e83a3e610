INIT Init
NEXT Next
CONSTANT Record = FALSE
CONSTANT Depth = 0
INVARIANT TypeOK
INVARIANT Laws
CHECK_DEADLOCK FALSE
