INIT Init
NEXT NextOrDone
CONSTANT Lens = {0, 1, 2, 3, 4}
CONSTANT ChunkCounts = {1, 2, 3, 4}
CONSTANT Teams = {1, 2, 3}
CONSTANT Record = FALSE
CONSTANT Shared = FALSE
INVARIANT Total
INVARIANT OneWriter
