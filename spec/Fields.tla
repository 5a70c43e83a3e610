------------------------------- MODULE Fields -------------------------------
(* The operators of FieldsPure under the names java/Fields.java accelerates, *)
(* and derived notions.                                                      *)
EXTENDS FieldsPure
FZero(F) == PFZero(F)
FOne(F) == PFOne(F)
FIsEl(F, a) == PFIsEl(F, a)
FAdd(F, a, b) == PFAdd(F, a, b)
FSub(F, a, b) == PFSub(F, a, b)
FNeg(F, a) == PFNeg(F, a)
FMul(F, a, b) == PFMul(F, a, b)
FPow(F, a, e) == PFPow(F, a, e)
FInv(F, a) == PFInv(F, a)
FSize(F) == PFSize(F)
FSqr(F, a) == FMul(F, a, a)
FDivide(F, a, b) == FMul(F, a, FInv(F, b))
FIsSquare(F, a) == \/ a = FZero(F) \/ F.k = "2"
                   \/ FPow(F, a, BDiv(FSize(F), <<2>>)) = FOne(F)
RECURSIVE FPrime(_)
FPrime(F) == IF F.k = "x" THEN FPrime(F.b) ELSE F      \* the prime subfield
RECURSIVE FDegree(_)
FDegree(F) == IF F.k = "x" THEN F.d * FDegree(F.b) ELSE IF F.k = "2" THEN F.n ELSE 1
FChar(F) == IF F.k = "2" THEN <<2>> ELSE FPrime(F).p
\* image of a small non-negative integer
FInt(F, n) == LET P == FPrime(F)
                  v == IF P.k = "2" THEN BInt(n % 2) ELSE BMod(BInt(n), P.p)
                  RECURSIVE E(_, _)
                  E(G, x) == IF G.k = "x" THEN [i \in 1..G.d |-> IF i = 1 THEN E(G.b, x) ELSE FZero(G.b)] ELSE x
              IN E(F, v)
\* embed an element of the base field
FLift(F, a) == [i \in 1..F.d |-> IF i = 1 THEN a ELSE FZero(F.b)]
\* embed an element of the subfield S (any level of the tower below F)
RECURSIVE FLiftFrom(_, _, _)
FLiftFrom(F, S, a) == IF F = S THEN a ELSE FLift(F, FLiftFrom(F.b, S, a))
\* the adjoined root
FGen(F) == [i \in 1..F.d |-> IF i = 2 THEN FOne(F.b) ELSE FZero(F.b)]
\* flattened prime-field coefficients
RECURSIVE FFlat(_, _)
FFlat(F, a) == IF F.k # "x" THEN <<a>>
               ELSE LET RECURSIVE C(_)
                        C(i) == IF i > F.d THEN <<>> ELSE FFlat(F.b, a[i]) \o C(i + 1)
                    IN C(1)
\* element number i of a field, counting in base p over the flattened coefficients
RECURSIVE FElAt(_, _, _)
FElAt(F, i, q) == IF F.k = "x" THEN [j \in 1..F.d |-> FElAt(F.b, (i \div ((q ^ FDegree(F.b)) ^ (j - 1))) % (q ^ FDegree(F.b)), q)]
                  ELSE BInt(i % q)
FEl(F, i) == FElAt(F, i, BToInt(FChar(F)))
\* Frobenius: the p^k-th power
FFrob(F, a, k) == FPow(F, a, BPow(FChar(F), k % FDegree(F)))
=============================================================================
