SPECIFICATION Spec
CONSTANT P = 5
CONSTANT MaxLen = 5
CONSTANT Bug = "none"
INVARIANT Partial
INVARIANT Right
