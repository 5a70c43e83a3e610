SPECIFICATION Spec
CONSTANT Word = 2
CONSTANT Words = 2
CONSTANT Bug = "none"
INVARIANT Cleared
INVARIANT Bounded
INVARIANT Reduced
INVARIANT Right
