------------------------------ MODULE T_Curve ------------------------------
(* Trace validation for CurveMachine and for the algorithms over groups. *)
EXTENDS CurveMachine, GroupAlg, TraceBase, UtilMath, Integers

G == GroupOf(B.group)
vars == <<st, l, reg>>
Init == TInit /\ reg = [i \in 1..Trace[st].n |-> O]

\* value read back after the operation; on the curve and reported well formed
Res(d) == reg'[d] = E.v /\ (Has(E, "wf") => E.wf)

TLoad == Is("load") /\ Load(G, E.d, E.v) /\ Res(E.d)
TAdd == Is("add") /\ Add(G, E.d, E.a, E.b) /\ Res(E.d)
\* through add(), mixed_add(), operator+
TSub == Is("sub") /\ Sub(G, E.d, E.a, E.b) /\ Res(E.d)
TDbl == Is("dbl") /\ Dbl(G, E.d, E.a) /\ Res(E.d)
TNeg == Is("neg") /\ Neg(G, E.d, E.a) /\ Res(E.d)
TCopy == Is("copy") /\ Copy(E.d, E.a) /\ Res(E.d)
TZero == Is("zero") /\ Zero(E.d) /\ Res(E.d)
TOne == Is("one") /\ One(G, E.d, E.v) /\ Res(E.d)
\* normalization and change of representation leave the point alone
TSpecial == Is("special") /\ Copy(E.d, E.d) /\ Res(E.d) /\ E.sp
TScale == Is("scale") /\ Copy(E.d, E.d) /\ Res(E.d)
TEq == Is("eq") /\ Same /\ E.r = (reg[E.a] = reg[E.b]) /\ E.ne = (reg[E.a] # reg[E.b])
TIsZero == Is("iszero") /\ Same /\ E.r = (reg[E.a] = O)
\* is_well_formed on coordinates that may be off the curve
TWellFormed == Is("wellformed") /\ Same /\ E.r = EOn(G.c, E.x)
TDump == Is("dump") /\ Same /\ E.v = reg

TMul == Is("mul") /\ Mul(G, E.d, E.k, E.a) /\ Res(E.d)
TCof == Is("cof") /\ Cofactor(G, E.d, E.a) /\ Res(E.d)
TMulQ == Is("mulq") /\ MulByQ(G, E.d, E.a) /\ Res(E.d)
\* a sampled or derived point of the subgroup
TSample == Is("sample") /\ EOn(G.c, E.v) /\ InSubgroup(G, E.v) /\ Set(E.d, E.v) /\ E.wf

\* independent samples differ
TDistinct == Is("distinct") /\ Same /\ \A i \in 1..B.n : reg[i] # O /\ \A j \in 1..(i - 1) : reg[i] # reg[j]

TWnaf == Is("wnaf") /\ Same /\ Wnaf(E.k, E.w, E.ds)

\* results over lists (bases are values, not registers); vs holds every distinct
\* result obtained, with the way it was obtained
All(v) == E.vs # <<>> /\ \A i \in 1..Len(E.vs) : E.vs[i].v = v
TMsm == Is("msm") /\ Same /\ Len(E.ks) = Len(E.ps) /\ All(ESum(G.c, E.ks, E.ps))
\* fixed-base: every scalar of the list times (the coefficient times) the base
Scal(k) == IF Has(E, "coeff") THEN BMod(BMul(E.coeff, k), G.r) ELSE k
TFixed == Is("fixed") /\ Same /\ All([i \in 1..Len(E.ks) |-> EMul(G.c, Scal(E.ks[i]), E.p)])
TBatchSpecial == Is("batchspecial") /\ Same /\ E.v = E.ps /\ E.sp
TWindow == Is("expwindow") /\ Same /\ E.w >= 1 /\ E.w <= 30

Next == \/ TLoad \/ TAdd \/ TSub \/ TDbl \/ TNeg \/ TCopy \/ TZero \/ TOne \/ TSpecial \/ TScale
        \/ TEq \/ TIsZero \/ TWellFormed \/ TDump \/ TMul \/ TCof \/ TMulQ \/ TSample \/ TDistinct
        \/ TWnaf \/ TMsm \/ TFixed \/ TBatchSpecial \/ TWindow
        \/ (Finished /\ Same)
=============================================================================
