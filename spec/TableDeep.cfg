SPECIFICATION Spec
CONSTANT Sizes = {9, 10, 11, 12}
CONSTANT Windows = {1, 2, 3, 4, 5, 6, 7, 13}
CONSTANT Bug = "none"
INVARIANT Rows
INVARIANT Filled
INVARIANT Prefix
INVARIANT Right
