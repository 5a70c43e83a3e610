SPECIFICATION Spec
CONSTANT Bits = 12
CONSTANT Widest = 7
CONSTANT Show = FALSE
CONSTANT Bug = "none"
INVARIANT Kept
INVARIANT InRange
INVARIANT Spaced
INVARIANT TableLong
INVARIANT Right
