SPECIFICATION Spec
CONSTANT Bits = 4
CONSTANT MaxLen = 5
CONSTANT Few = {0, 1, 2, 5, 7, 8, 15}
CONSTANT Show = FALSE
CONSTANT Bug = "none"
INVARIANT Kept
INVARIANT Right
INVARIANT Ordered
PROPERTY Smaller
PROPERTY Ends
