SPECIFICATION Spec
CONSTANT Bits = 4
CONSTANT MaxLen = 2
CONSTANT Few = {1}
CONSTANT Show = FALSE
CONSTANT Bug = "top bucket"
INVARIANT Kept
INVARIANT Right
INVARIANT Ordered
PROPERTY Smaller
