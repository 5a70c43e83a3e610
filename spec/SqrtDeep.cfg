SPECIFICATION Spec
CONSTANT Primes = {577, 769, 3329, 7681, 12289, 40961}
CONSTANT Bug = "none"
INVARIANT Kept
INVARIANT OrderFalls
INVARIANT Generates
INVARIANT Right
PROPERTY Fewer
