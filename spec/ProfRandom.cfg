INIT Init
NEXT NextOrDone
CONSTANT Record = TRUE
CONSTANT Depth0 = 40
INVARIANT IndentIsDepth
INVARIANT SameTables
INVARIANT Sane
INVARIANT EntriesKnown
INVARIANT SumOfSpans
CHECK_DEADLOCK FALSE
