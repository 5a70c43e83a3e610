SPECIFICATION Spec
CONSTANT P = 7
CONSTANT MaxLen = 6
CONSTANT Bug = "none"
INVARIANT Partial
INVARIANT Right
