SPECIFICATION Spec
CONSTANT P = 5
CONSTANT MaxLen = 3
CONSTANT Bug = "zeros stay"
INVARIANT Partial
INVARIANT Right
