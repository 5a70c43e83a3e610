INIT Init
NEXT NextOrDone
CONSTANT Record = TRUE
CONSTANT Depth = 16
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
