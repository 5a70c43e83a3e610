------------------------------ MODULE MsmModel ------------------------------
(***************************************************************************)
(* The two multi-exponentiation algorithms with a state of their own,      *)
(* step by step over a free abelian group (a sum of multiples is the       *)
(* function of its coefficients, so nothing can cancel by accident), for   *)
(* every list of small scalars:                                            *)
(*   "bc"    Bos-Coster: a heap of scalars, the two largest are            *)
(*           subtracted and their points added, until one is left;         *)
(*   "bdlo"  Pippenger's windows of c bits with buckets.                   *)
(* Every arrangement that is a heap may be the first one.                  *)
(* Show prints the finished lists: the harness stretches every digit of    *)
(* two bits to a word of 64 and gives the lists to the library.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bits, MaxLen, Few, Show, Bug
VARIABLES alg, ks, q, g, acc, pc
vars == <<alg, ks, q, g, acc, pc>>

Zero == [i \in 1..MaxLen |-> 0]
Point(i) == [Zero EXCEPT ![i] = 1]
x ++ y == [i \in 1..MaxLen |-> x[i] + y[i]]
Times(n, x) == [i \in 1..MaxLen |-> n * x[i]]
Target == [i \in 1..MaxLen |-> IF i <= Len(ks) THEN ks[i] ELSE 0]
RECURSIVE NumBits(_)
NumBits(n) == IF n = 0 THEN 0 ELSE 1 + NumBits(n \div 2)
Scalars(len) == IF len <= 2 THEN 0..(2^Bits - 1) ELSE Few

Init == /\ alg \in {"bc"} \cup {"bdlo"}
        /\ \E len \in 0..MaxLen : ks \in [1..len -> Scalars(len)]
        /\ q = <<>> /\ g = <<>> /\ acc = Zero /\ pc = "start"

\* ---- Bos-Coster; q holds pairs (point, scalar), positions from 1
Heap(h) == \A i \in 2..Len(h) : h[i \div 2][2] >= h[i][2]
Odd == IF Len(ks) % 2 = 1 \/ Bug = "no padding" THEN Len(ks) ELSE Len(ks) + 1
BcStart ==
  /\ alg = "bc" /\ pc = "start" /\ UNCHANGED <<alg, ks>>
  /\ IF Len(ks) <= 1
     THEN /\ acc' = IF Len(ks) = 0 THEN Zero ELSE Times(ks[1], Point(1))
          /\ pc' = "done" /\ UNCHANGED <<q, g>>
     ELSE /\ \E p \in Permutations(1..Len(ks)) :
               /\ Heap([i \in 1..Len(ks) |-> <<p[i], ks[p[i]]>>])
               /\ q' = [i \in 1..Odd |-> IF i <= Len(ks) THEN <<p[i], ks[p[i]]>> ELSE <<i, 0>>]
          /\ g' = [i \in 1..Odd |-> IF i <= Len(ks) THEN Point(i) ELSE Zero]
          /\ pc' = "loop" /\ UNCHANGED acc
RECURSIVE Down(_, _)   \* the first one goes down to a leaf, always changing places with the larger child
Down(h, i) == IF 2 * i + 1 > Len(h) THEN <<h, i>>
              ELSE LET c == IF h[2 * i][2] < h[2 * i + 1][2] THEN 2 * i + 1 ELSE 2 * i
                   IN Down([h EXCEPT ![i] = h[c], ![c] = h[i]], c)
RECURSIVE Up(_, _)
Up(h, i) == IF i > 1 /\ h[i \div 2][2] < h[i][2] THEN Up([h EXCEPT ![i \div 2] = h[i], ![i] = h[i \div 2]], i \div 2) ELSE h
Again(h) == LET d == Down(h, 1) IN IF Bug = "not up" THEN d[1] ELSE Up(d[1], d[2])
BcStep ==
  /\ alg = "bc" /\ pc = "loop" /\ UNCHANGED <<alg, ks>>
  /\ LET a == q[1]
         b == IF Len(q) >= 3 /\ q[2][2] < q[3][2] THEN q[3] ELSE q[2]
         ab == NumBits(a[2])
         bb == NumBits(b[2])
     IN IF b[2] = 0
        THEN acc' = acc ++ Times(a[2], g[a[1]]) /\ pc' = "done" /\ UNCHANGED <<q, g>>
        ELSE IF bb < 2^(ab - bb)
        THEN acc' = acc ++ Times(a[2], g[a[1]]) /\ q' = Again([q EXCEPT ![1] = <<a[1], 0>>]) /\ UNCHANGED <<g, pc>>
        ELSE /\ q' = Again([q EXCEPT ![1] = <<a[1], a[2] - b[2]>>]) /\ UNCHANGED <<acc, pc>>
             /\ g' = IF Bug = "wrong way" THEN [g EXCEPT ![a[1]] = @ ++ g[b[1]]] ELSE [g EXCEPT ![b[1]] = @ ++ g[a[1]]]
RECURSIVE Rest(_)
Rest(i) == IF i = 0 THEN Zero ELSE Rest(i - 1) ++ Times(q[i][2], g[q[i][1]])
RECURSIVE SumR(_, _)
SumR(h, i) == IF i = 0 THEN 0 ELSE SumR(h, i - 1) + h[i][2]

\* ---- windows; q is <<c, windows left>>
RECURSIVE Max(_)
Max(i) == IF i = 0 THEN 0 ELSE LET m == Max(i - 1) b == NumBits(ks[i]) IN IF b > m THEN b ELSE m
BdStart == /\ alg = "bdlo" /\ pc = "start" /\ UNCHANGED <<alg, ks, g, acc>>
           /\ \E c \in 1..(Bits + 1) : q' = <<c, (Max(Len(ks)) + c - 1) \div c>> /\ pc' = "loop"
Id(i, c, k) == (ks[i] \div 2^(c * k)) % 2^c
RECURSIVE Bucket(_, _, _, _)
Bucket(b, c, k, i) == IF i = 0 THEN Zero ELSE Bucket(b, c, k, i - 1) ++ (IF Id(i, c, k) = b THEN Point(i) ELSE Zero)
RECURSIVE Sums(_, _, _, _, _)   \* from the topmost bucket down: the running sum goes into the result each time
Sums(c, k, b, run, res) == IF b = 0 THEN res
                           ELSE LET r == run ++ Bucket(b, c, k, Len(ks)) IN Sums(c, k, b - 1, r, res ++ r)
BdStep == /\ alg = "bdlo" /\ pc = "loop" /\ UNCHANGED <<alg, ks, g>>
          /\ IF q[2] = 0 THEN pc' = "done" /\ UNCHANGED <<q, acc>>
             ELSE LET c == q[1] k == q[2] - 1 IN
                  /\ acc' = Sums(c, k, 2^c - (IF Bug = "top bucket" /\ c > 1 THEN 2 ELSE 1), Zero, Times(2^c, acc))
                  /\ q' = <<c, k>> /\ UNCHANGED pc

Done == pc = "done" /\ (IF Show /\ alg = "bc" /\ Len(ks) > 0 THEN PrintT("@@" \o ToJson([i \in 1..Len(ks) |-> <<"k", ks[i] % 4, ks[i] \div 4>>])) ELSE TRUE)
        /\ UNCHANGED vars
Next == BcStart \/ BcStep \/ BdStart \/ BdStep \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == pc = "done" => acc = Target
Kept == pc = "loop" => IF alg = "bc" THEN acc ++ Rest(Len(q)) = Target
                       ELSE acc = [i \in 1..MaxLen |-> Target[i] \div 2^(q[1] * q[2])]
Ordered == pc = "loop" /\ alg = "bc" => Heap(q) /\ Len(q) % 2 = 1 /\ \A i \in 1..Len(q) : q[i][2] >= 0
\* every round of Bos-Coster takes something away, so that it ends
Smaller == [][pc = "loop" /\ pc' = "loop" /\ alg = "bc" => SumR(q', Len(q')) < SumR(q, Len(q))]_vars
Ends == <>(pc = "done")
=============================================================================
