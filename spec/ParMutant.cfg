INIT Init
NEXT NextOrDone
CONSTANT Lens = {4}
CONSTANT ChunkCounts = {2}
CONSTANT Teams = {2}
CONSTANT Record = FALSE
CONSTANT Shared = TRUE
INVARIANT Total
INVARIANT OneWriter
