----------------------------- MODULE CurvesPure -----------------------------
(***************************************************************************)
(* Elliptic curve groups by the affine chord-and-tangent (Weierstrass) or  *)
(* unified (Edwards) law.  A point is <<>> (the identity) or <<x, y>>.     *)
(***************************************************************************)
EXTENDS Fields

PEOn(C, P) ==
  IF P = <<>> THEN TRUE
  ELSE LET F == C.F x == P[1] y == P[2] IN
    /\ Len(P) = 2 /\ FIsEl(F, x) /\ FIsEl(F, y)
    /\ IF C.k = "w"
       THEN FMul(F, y, y) = FAdd(F, FMul(F, FMul(F, x, x), x), FAdd(F, FMul(F, C.a, x), C.b))
       ELSE LET x2 == FMul(F, x, x) y2 == FMul(F, y, y)
            IN FAdd(F, FMul(F, C.a, x2), y2) = FAdd(F, FOne(F), FMul(F, C.d, FMul(F, x2, y2)))
PENeg(C, P) == IF P = <<>> THEN P
               ELSE IF C.k = "w" THEN <<P[1], FNeg(C.F, P[2])>>
               ELSE <<FNeg(C.F, P[1]), P[2]>>
\* the affine Edwards identity (0, 1) is written <<>>
EdCanon(F, x, y) == IF x = FZero(F) /\ y = FOne(F) THEN <<>> ELSE <<x, y>>
PEAdd(C, P, Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE LET F == C.F x1 == P[1] y1 == P[2] x2 == Q[1] y2 == Q[2] IN
    IF C.k = "w"
    THEN IF x1 = x2 /\ y2 = FNeg(F, y1) THEN <<>>
         ELSE LET s == IF x1 = x2
                       THEN FDivide(F, FAdd(F, FMul(F, FInt(F, 3), FMul(F, x1, x1)), C.a), FAdd(F, y1, y1))
                       ELSE FDivide(F, FSub(F, y2, y1), FSub(F, x2, x1))
                  x3 == FSub(F, FMul(F, s, s), FAdd(F, x1, x2))
              IN <<x3, FSub(F, FMul(F, s, FSub(F, x1, x3)), y1)>>
    ELSE LET k == FMul(F, C.d, FMul(F, FMul(F, x1, x2), FMul(F, y1, y2)))
             x3 == FDivide(F, FAdd(F, FMul(F, x1, y2), FMul(F, y1, x2)), FAdd(F, FOne(F), k))
             y3 == FDivide(F, FSub(F, FMul(F, y1, y2), FMul(F, C.a, FMul(F, x1, x2))), FSub(F, FOne(F), k))
         IN EdCanon(F, x3, y3)
RECURSIVE PEMulB(_, _, _, _, _)
PEMulB(C, k, P, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET dd == PEAdd(C, acc, acc)
       IN PEMulB(C, k, P, i - 1, IF PBit(k, i) = 1 THEN PEAdd(C, dd, P) ELSE dd)
PEMul(C, k, P) == PEMulB(C, k, P, PBitLen(k) - 1, <<>>)
RECURSIVE PESumMul(_, _, _, _)
\* sum of ks[i] Ps[i] over i in 1..n
PESumMul(C, ks, Ps, n) == IF n = 0 THEN <<>>
  ELSE PEAdd(C, PESumMul(C, ks, Ps, n - 1), PEMul(C, ks[n], Ps[n]))
=============================================================================
