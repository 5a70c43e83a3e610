------------------------------- MODULE Curves -------------------------------
(* The operators of CurvesPure under the names java/Curves.java accelerates. *)
EXTENDS CurvesPure
EOn(C, P) == PEOn(C, P)
ENeg(C, P) == PENeg(C, P)
EAdd(C, P, Q) == PEAdd(C, P, Q)
EMul(C, k, P) == PEMul(C, k, P)
ESum(C, ks, Ps) == PESumMul(C, ks, Ps, Len(Ps))
ESub(C, P, Q) == EAdd(C, P, ENeg(C, Q))
EDbl(C, P) == EAdd(C, P, P)
=============================================================================
