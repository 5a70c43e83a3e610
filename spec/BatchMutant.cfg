SPECIFICATION Spec
CONSTANT P = 5
CONSTANT MaxLen = 3
CONSTANT Bug = "new element"
INVARIANT Partial
INVARIANT Right
