SPECIFICATION Spec
CONSTANT Primes = {3, 5, 7, 13, 17, 41, 97, 113, 193, 257}
CONSTANT Bug = "none"
INVARIANT Kept
INVARIANT OrderFalls
INVARIANT Generates
INVARIANT Right
PROPERTY Fewer
