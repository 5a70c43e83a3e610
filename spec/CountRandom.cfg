INIT Init
NEXT NextOrDone
CONSTANT Record = TRUE
CONSTANT Depth0 = 40
INVARIANT Sane
INVARIANT SumOfSpans
CHECK_DEADLOCK FALSE
