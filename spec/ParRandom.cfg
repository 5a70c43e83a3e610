INIT Init
NEXT NextOrDone
CONSTANT Lens = {2, 3, 4, 5, 7, 9}
CONSTANT ChunkCounts = {2, 3, 4, 5}
CONSTANT Teams = {2, 3, 4, 6}
CONSTANT Record = TRUE
CONSTANT Shared = FALSE
INVARIANT Total
INVARIANT OneWriter
