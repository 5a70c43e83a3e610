INIT Init
NEXT NextOrDone
CONSTANT Record = FALSE
CONSTANT Depth0 = 4
INVARIANT Sane
INVARIANT SumOfSpans
CHECK_DEADLOCK FALSE
