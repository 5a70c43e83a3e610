SPECIFICATION Spec
CONSTANT Bits = 8
CONSTANT Widest = 6
CONSTANT Show = TRUE
CONSTANT Bug = "none"
INVARIANT Kept
INVARIANT InRange
INVARIANT Spaced
INVARIANT TableLong
INVARIANT Right
