SPECIFICATION Spec
CONSTANT Word = 1
CONSTANT Words = 5
CONSTANT Bug = "none"
INVARIANT Cleared
INVARIANT Bounded
INVARIANT Reduced
INVARIANT Right
