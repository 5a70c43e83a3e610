SPECIFICATION Spec
CONSTANT Bits = 4
CONSTANT MaxLen = 3
CONSTANT Few = {0, 1, 5, 15}
CONSTANT Show = FALSE
CONSTANT Bug = "not up"
INVARIANT Kept
INVARIANT Right
INVARIANT Ordered
PROPERTY Smaller
