SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 3, 4, 5, 6, 7, 8}
CONSTANT Windows = {1, 2, 3, 4, 5, 9}
CONSTANT Bug = "none"
INVARIANT Rows
INVARIANT Filled
INVARIANT Prefix
INVARIANT Right
