SPECIFICATION Spec
CONSTANT Bits = 6
CONSTANT Widest = 3
CONSTANT Show = FALSE
CONSTANT Bug = "lost carry"
INVARIANT Kept
INVARIANT InRange
INVARIANT Spaced
INVARIANT TableLong
INVARIANT Right
