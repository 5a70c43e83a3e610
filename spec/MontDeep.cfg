SPECIFICATION Spec
CONSTANT Word = 2
CONSTANT Words = 3
CONSTANT Bug = "none"
INVARIANT Cleared
INVARIANT Bounded
INVARIANT Reduced
INVARIANT Right
