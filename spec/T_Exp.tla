------------------------------- MODULE T_Exp -------------------------------
(***************************************************************************)
(* Trace validation of the exponentiation templates over the abstract      *)
(* group Z_M (M a prime far above every product that occurs): recodings,   *)
(* multi-exponentiation, fixed-base tables, batch inversion.               *)
(* A result list vs carries every distinct result obtained, with the way   *)
(* it was obtained.                                                        *)
(***************************************************************************)
EXTENDS Params, GroupAlg, TraceBase, Integers

vars == <<st, l>>
Init == TInit
M == B.m
All(v) == E.vs # <<>> /\ \A i \in 1..Len(E.vs) : E.vs[i].v = v
TWnaf == Is("wnaf") /\ Wnaf(E.k, E.w, E.ds)
\* scalar multiplication by any method
TExp == Is("exp") /\ All(ZMul(M, E.k, E.p))
TMsm == Is("msm") /\ Len(E.ks) = Len(E.ps) /\ All(ZSum(M, E.ks, E.ps))
\* fixed-base: every scalar of the list times (the coefficient times) the base
Scal(k) == IF Has(E, "coeff") THEN BMod(BMul(E.coeff, k), E.n) ELSE k
TFixed == Is("fixed") /\ All([i \in 1..Len(E.ks) |-> ZMul(M, Scal(E.ks[i]), E.p)])
\* normalization keeps the elements; all report themselves special
TSpecial == Is("batchspecial") /\ E.v = E.ps /\ E.sp
TBatchInv == Is("batchinv") /\ Inverses(FieldOf(E.field), E.v, E.xs)
TInner == Is("inner") /\ E.v = FInner(FieldOf(E.field), E.as, E.bs)
TWindow == Is("expwindow") /\ E.w >= 1 /\ E.w <= 30
Next == TWnaf \/ TExp \/ TMsm \/ TFixed \/ TSpecial \/ TBatchInv \/ TInner \/ TWindow \/ Finished
=============================================================================
