SPECIFICATION Spec
CONSTANT Primes = {97}
CONSTANT Bug = "v"
INVARIANT Kept
INVARIANT OrderFalls
INVARIANT Generates
INVARIANT Right
PROPERTY Fewer
