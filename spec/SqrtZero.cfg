SPECIFICATION Spec
CONSTANT Primes = {97}
CONSTANT Bug = "zero"
INVARIANT Kept
INVARIANT OrderFalls
INVARIANT Generates
INVARIANT Right
PROPERTY Fewer
