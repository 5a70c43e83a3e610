----------------------------- MODULE RecodeModel -----------------------------
(***************************************************************************)
(* Signed-window recoding and the exponentiation that follows it, step by  *)
(* step, for every scalar of Bits bits kept in a register of Bits bits:    *)
(* taking away a negative digit can carry out of the register.             *)
(* Then the digits are read from the last one to the first: double, and    *)
(* add or subtract an odd multiple out of a table of 2^(w-1).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Bits, Widest, Show, Bug
VARIABLES k, w, c, j, ds, acc, found, pc
vars == <<k, w, c, j, ds, acc, found, pc>>
N == 2^Bits
Init == /\ k \in 0..(N - 1) /\ w \in 1..Widest /\ c = k /\ j = 0 /\ acc = 0 /\ found = FALSE /\ pc = "digits"
        /\ ds = [i \in 0..Bits |-> 0]
Digit(v) == IF v % 2 = 0 THEN 0
            ELSE LET u == v % 2^(w + 1) IN IF u > 2^w THEN u - 2^(w + 1) ELSE u
Step == /\ pc = "digits"
        /\ IF c = 0 THEN pc' = "exp" /\ j' = Bits /\ UNCHANGED <<c, ds>>
           ELSE LET u == Digit(c)
                    low == (c - u) % N
                    carry == IF c - u >= N /\ Bug # "lost carry" THEN 1 ELSE 0
                IN /\ ds' = [ds EXCEPT ![j] = u] /\ j' = j + 1
                   /\ c' = low \div 2 + carry * (N \div 2) /\ UNCHANGED pc
        /\ UNCHANGED <<k, w, acc, found>>
\* table[i] = (2i+1) times the base; the base is 1
Exp == /\ pc = "exp"
       /\ IF j < 0 THEN pc' = "done" /\ UNCHANGED <<acc, found, j>>
          ELSE LET d == IF found THEN 2 * acc ELSE acc
                   u == ds[j]
                   odd(i) == IF Bug = "short table" THEN 2 * (i % 2^(w - 2)) + 1 ELSE 2 * i + 1
               IN /\ acc' = IF u > 0 THEN d + odd(u \div 2) ELSE IF u < 0 THEN d - odd((-u) \div 2) ELSE d
                  /\ found' = (found \/ u # 0) /\ j' = j - 1 /\ UNCHANGED pc
       /\ UNCHANGED <<k, w, c, ds>>
Done == pc = "done" /\ (IF Show THEN PrintT("@@" \o ToJson(<< <<"wnaf", k, w>> >>)) ELSE TRUE) /\ UNCHANGED vars
Next == Step \/ Exp \/ Done
Spec == Init /\ [][Next]_vars

RECURSIVE Value(_)   \* of the digits so far
Value(i) == IF i < 0 THEN 0 ELSE ds[i] * 2^i + Value(i - 1)
Kept == pc = "digits" => Value(j - 1) + c * 2^j = k
InRange == pc = "digits" /\ c # 0 => j <= Bits          \* the list of digits is long enough
Spaced == \A a \in 0..Bits : ds[a] # 0 => /\ ds[a] % 2 = 1 /\ ds[a] < 2^w /\ -ds[a] < 2^w
                                          /\ \A b \in (a + 1)..(a + w) : b > Bits \/ ds[b] = 0
TableLong == \A a \in 0..Bits : LET u == IF ds[a] < 0 THEN -ds[a] ELSE ds[a] IN u \div 2 < 2^(w - 1)
Right == pc = "done" => acc = k
=============================================================================
