INIT Init
NEXT NextOrDone
CONSTANT Record = FALSE
CONSTANT Depth0 = 4
INVARIANT IndentIsDepth
INVARIANT SameTables
INVARIANT Sane
INVARIANT EntriesKnown
INVARIANT SumOfSpans
CHECK_DEADLOCK FALSE
