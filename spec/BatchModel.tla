----------------------------- MODULE BatchModel -----------------------------
(***************************************************************************)
(* Batch inversion with one inversion: products of prefixes on the way up, *)
(* the inverse of the rest on the way down; and the normalization of a     *)
(* batch of points, which takes the identities out first and puts them     *)
(* back.  Every list over a small prime field; zero stands for the         *)
(* identity, which has nothing to invert.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS P, MaxLen, Bug
VARIABLES list, work, prod, acc, i, pc
vars == <<list, work, prod, acc, i, pc>>
Inv(x) == CHOOSE y \in 1..(P - 1) : (x * y) % P = 1
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)
Init == /\ \E n \in 0..MaxLen : list \in [1..n -> 0..(P - 1)]
        /\ work = (IF Bug = "zeros stay" THEN list ELSE NonZero(list)) /\ prod = <<>> /\ acc = 1 /\ i = 1 /\ pc = "up"
Up == /\ pc = "up"
      /\ IF i > Len(work) THEN pc' = "down" /\ acc' = (IF acc = 0 THEN 0 ELSE Inv(acc)) /\ i' = Len(work) /\ UNCHANGED prod
         ELSE prod' = Append(prod, acc) /\ acc' = (acc * work[i]) % P /\ i' = i + 1 /\ UNCHANGED pc
      /\ UNCHANGED <<list, work>>
Down == /\ pc = "down" /\ UNCHANGED <<list, prod>>
        /\ IF i = 0 THEN pc' = "done" /\ UNCHANGED <<work, acc, i>>
           ELSE /\ work' = [work EXCEPT ![i] = (acc * prod[i]) % P]
                /\ acc' = (acc * (IF Bug = "new element" THEN work'[i] ELSE work[i])) % P
                /\ i' = i - 1 /\ UNCHANGED pc
Done == pc = "done" /\ UNCHANGED vars
Next == Up \/ Down \/ Done
Spec == Init /\ [][Next]_vars
RECURSIVE Put(_, _)    \* the results at the places of the elements that are not the identity
Put(s, r) == IF s = <<>> THEN <<>> ELSE IF Head(s) = 0 THEN <<0>> \o Put(Tail(s), r) ELSE <<Head(r)>> \o Put(Tail(s), Tail(r))
Right == pc = "done" => LET res == Put(list, work) IN
           /\ Len(work) = Len(NonZero(list))
           /\ \A n \in DOMAIN list : IF list[n] = 0 THEN res[n] = 0 ELSE res[n] = Inv(list[n])
Partial == pc = "down" /\ i > 0 => LET nz == NonZero(list) IN
             \A n \in (i + 1)..Len(nz) : work[n] = Inv(nz[n])
=============================================================================
