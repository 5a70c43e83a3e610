----------------------------- MODULE TableModel -----------------------------
(***************************************************************************)
(* Fixed-base windows: the table of multiples is filled row by row (the    *)
(* last row only as far as scalars of that size can reach), and a scalar   *)
(* is read window by window.  The base is 1, so a point is its multiple.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes, Windows, Bug
VARIABLES size, w, rows, gouter, k, o, res, pc
vars == <<size, w, rows, gouter, k, o, res, pc>>
Outer == (size + w - 1) \div w
InRow(r) == IF r = Outer - 1 THEN 2^(size - (Outer - 1) * w) ELSE 2^w
Init == /\ size \in Sizes /\ w \in Windows /\ rows = <<>> /\ gouter = 1 /\ k = -1 /\ o = 0 /\ res = 0 /\ pc = "table"
Fill == /\ pc = "table"
        /\ IF Len(rows) = Outer THEN pc' = "read" /\ k' \in 0..(2^size - 1) /\ UNCHANGED <<rows, gouter>>
           ELSE LET r == Len(rows)
                    cut == IF Bug = "every row cut" THEN InRow(Outer - 1) ELSE InRow(r)
                IN /\ rows' = Append(rows, [i \in 0..(2^w - 1) |-> IF i < cut THEN i * gouter ELSE 0])
                   /\ gouter' = gouter * 2^w /\ UNCHANGED <<pc, k>>
        /\ UNCHANGED <<size, w, o, res>>
Window == (k \div 2^(o * w)) % 2^w
Read == /\ pc = "read"
        /\ IF o = Outer THEN pc' = "done" /\ UNCHANGED <<o, res>>
           ELSE res' = res + rows[o + 1][Window] /\ o' = o + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<size, w, rows, gouter, k>>
Done == pc = "done" /\ UNCHANGED vars
Next == Fill \/ Read \/ Done
Spec == Init /\ [][Next]_vars
Rows == \A r \in DOMAIN rows : \A i \in 0..(InRow(r - 1) - 1) : rows[r][i] = i * 2^((r - 1) * w)
Filled == pc = "read" /\ o < Outer => Window < InRow(o)    \* nothing is read that was not filled in
Prefix == pc = "read" => res = k % 2^(o * w)
Right == pc = "done" => res = k
=============================================================================
