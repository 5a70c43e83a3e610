SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 3, 4, 5}
CONSTANT Windows = {1, 2, 3}
CONSTANT Bug = "every row cut"
INVARIANT Rows
INVARIANT Filled
INVARIANT Prefix
INVARIANT Right
