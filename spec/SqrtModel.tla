------------------------------ MODULE SqrtModel ------------------------------
(***************************************************************************)
(* Tonelli-Shanks in the prime fields with the given moduli, for every     *)
(* square and every choice of a non-residue.                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Primes, Bug
VARIABLES p, a, v, z, x, b, pc
vars == <<p, a, v, z, x, b, pc>>
RECURSIVE Pow(_, _, _)
Pow(y, e, m) == IF e = 0 THEN 1 ELSE LET h == Pow(y, e \div 2, m) IN IF e % 2 = 0 THEN (h * h) % m ELSE (((h * h) % m) * y) % m
RECURSIVE S(_)
S(n) == IF n % 2 = 1 THEN 0 ELSE 1 + S(n \div 2)
T(m) == (m - 1) \div 2^S(m - 1)
IsNonResidue(y, m) == Pow(y, (m - 1) \div 2, m) = m - 1
\* the first and the last non-residue
NonResidues(m) == LET all == {y \in 1..(m - 1) : IsNonResidue(y, m)} IN
                  {y \in all : (\A u \in all : y <= u) \/ (\A u \in all : y >= u)}
Init == \E m \in Primes : \E n \in NonResidues(m) : \E y \in 0..(m - 1) :
          /\ p = m /\ a = (y * y) % m
          /\ v = S(m - 1) /\ z = Pow(n, T(m), m)
          /\ x = (a * Pow(a, (T(m) - 1) \div 2, m)) % m
          /\ b = (x * Pow(a, (T(m) - 1) \div 2, m)) % m
          /\ pc = IF a = 0 /\ Bug # "zero" THEN "done" ELSE "loop"
RECURSIVE Order(_, _)   \* the number of squarings that lead to one
Order(y, n) == IF y = 1 THEN 0 ELSE IF n = 0 THEN 1 ELSE 1 + Order((y * y) % p, n - 1)
Step == /\ pc = "loop"
        /\ IF b = 1 THEN pc' = "done" /\ UNCHANGED <<v, z, x, b>>
           ELSE LET m == Order(b, 40)
                    w == Pow(z, 2^(v - m - 1), p)
                IN /\ z' = (w * w) % p /\ b' = (b * ((w * w) % p)) % p /\ x' = (x * w) % p
                   /\ v' = (IF Bug = "v" THEN v - 1 ELSE m) /\ UNCHANGED pc
        /\ UNCHANGED <<p, a>>
Done == pc = "done" /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Kept == (x * x) % p = (a * b) % p
OrderFalls == pc = "loop" => Order(b, 40) < v            \* otherwise the next exponent is negative
Generates == pc = "loop" => Pow(z, 2^(v - 1), p) = p - 1
Fewer == [][pc = "loop" /\ pc' = "loop" => v' < v]_vars
Right == pc = "done" => (x * x) % p = a
=============================================================================
