------------------------------ MODULE MontModel ------------------------------
(***************************************************************************)
(* Montgomery multiplication in words of Word bits, Words of them, for     *)
(* every odd modulus and every pair of residues: one word of the result is *)
(* cleared at a time by adding a multiple of the modulus, and one          *)
(* subtraction at the end brings the value below the modulus.              *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS Word, Words, Bug
VARIABLES p, a, b, t, i, pc
vars == <<p, a, b, t, i, pc>>
B == 2^Word
R == B^Words
\* the modulus leaves its top bit free, as all the shipped ones do; not even that is needed with a word to spare
Init == /\ p \in {x \in 3..(R - 1) : x % 2 = 1 /\ x >= R \div B} /\ a \in 0..(p - 1) /\ b \in 0..(p - 1)
        /\ t = a * b /\ i = 0 /\ pc = "words"
MInv == CHOOSE x \in 0..(B - 1) : (x * p) % B = B - 1     \* -1/p modulo the word
Step == /\ pc = "words"
        /\ IF i = Words THEN pc' = "last" /\ t' = t \div R /\ UNCHANGED i
           ELSE /\ t' = t + ((t \div B^i) * MInv % B) * p * B^i
                /\ i' = i + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<p, a, b>>
Last == /\ pc = "last" /\ pc' = "done" /\ UNCHANGED <<p, a, b, i>>
        /\ t' = IF t > p \/ (t = p /\ Bug # "strict") THEN t - p ELSE t
Done == pc = "done" /\ UNCHANGED vars
Next == Step \/ Last \/ Done
Spec == Init /\ [][Next]_vars
Cleared == pc = "words" => t % B^i = 0 /\ t % p = (a * b) % p
Bounded == (pc = "words" => t < 2 * p * R) /\ (pc = "last" => t < 2 * p)
Reduced == pc = "done" => t < p
Right == pc = "done" => (t * R) % p = (a * b) % p
=============================================================================
