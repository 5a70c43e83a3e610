SPECIFICATION Spec
CONSTANT Bits = 4
CONSTANT MaxLen = 4
CONSTANT Few = {0, 1, 3, 8, 15}
CONSTANT Show = TRUE
CONSTANT Bug = "none"
INVARIANT Kept
INVARIANT Right
INVARIANT Ordered
PROPERTY Smaller
