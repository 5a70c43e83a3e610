SPECIFICATION Spec
CONSTANT Bits = 4
CONSTANT MaxLen = 3
CONSTANT Few = {0, 1, 5, 15}
CONSTANT Show = FALSE
CONSTANT Bug = "no padding"
INVARIANT Kept
INVARIANT Right
INVARIANT Ordered
PROPERTY Smaller
