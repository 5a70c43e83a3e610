------------------------------ MODULE T_Pairing ------------------------------
(* Trace validation for PairingMachine: pairings of the shipped curves.       *)
EXTENDS PairingMachine, Params, TraceBase, Integers

VARIABLE e                    \* the pairing of the generators, and the bases of a P23 history
CN == B.curve
G1 == GroupOf(CN \o "_G1")
G2 == GroupOf(CN \o "_G2")
R == G1.r
K == FieldOf(CN \o (CASE CN = "mnt4" -> "_Fq4" [] CN \in {"edwards", "mnt6"} -> "_Fq6" [] OTHER -> "_Fq12"))
NR == IF Has(B, "n") THEN B.n ELSE 0
Init == TInit /\ e = <<>>
     /\ p = [i \in 1..NR |-> ZeroS] /\ q = [i \in 1..NR |-> ZeroS] /\ f = [i \in 1..NR |-> ZeroS]
Keep == UNCHANGED e
InMu(v) == FIsEl(K, v) /\ FPow(K, v, R) = FOne(K)

\* non-degenerate: the generators' pairing is not one and has order R
TBase == Is("base") /\ Still /\ E.P # <<>> /\ E.Q # <<>> /\ EOn(G1.c, E.P) /\ EOn(G2.c, E.Q)
      /\ E.v # FOne(K) /\ InMu(E.v) /\ e' = <<E.v, E.P, E.Q>>
Val(x) == FPow(K, e[1], BMod(x, R))
IsP(a, P) == EMul(G1.c, a, e[2]) = P
IsQ(b, Q) == EMul(G2.c, b, e[3]) = Q
All(v) == E.vs # <<>> /\ \A i \in 1..Len(E.vs) : E.vs[i].v = v

\* e(aG1, bG2) = e(G1,G2)^(ab), obtained in every way listed
TPair == Is("pair") /\ Still /\ Keep /\ IsP(E.a, E.P) /\ IsQ(E.b, E.Q) /\ All(Val(BMul(E.a, E.b)))
\* e(P1+P2, Q) = e(P1,Q) e(P2,Q) and likewise in the second argument, on values computed by the library
TAdd1 == Is("add1") /\ Still /\ Keep /\ E.S = EAdd(G1.c, E.P1, E.P2) /\ E.s = FMul(K, E.v1, E.v2)
TAdd2 == Is("add2") /\ Still /\ Keep /\ E.S = EAdd(G2.c, E.Q1, E.Q2) /\ E.s = FMul(K, E.v1, E.v2)

TPre1 == Is("pre1") /\ Pre1(R, E.d, E.a) /\ Keep /\ IsP(E.a, E.P)
TPre2 == Is("pre2") /\ Pre2(R, E.d, E.b) /\ Keep /\ IsQ(E.b, E.Q)
TReload == (Is("reload1") \/ Is("reload2")) /\ Reload /\ Keep /\ E.eq
TMiller == Is("miller") /\ Miller(R, E.d, E.i, E.j) /\ Keep
TDouble == Is("double") /\ Double(R, E.d, E.i, E.j, E.k, E.m) /\ Keep
TQuot == Is("quot") /\ Quot(R, E.d, E.i, E.j, E.k, E.m) /\ Keep
TPQ == Is("prodquot") /\ ProdQuot(R, E.d, E.i, E.j, E.k, E.m, E.s, E.t) /\ Keep
TMulF == Is("mulf") /\ MulF(R, E.d, E.a, E.b) /\ Keep
TInvF == Is("invf") /\ InvF(R, E.d, E.a) /\ Keep
TPowF == Is("powf") /\ PowF(R, E.d, E.a, E.k) /\ Keep
TFinal == Is("final") /\ Still /\ Keep /\ E.v = Val(Shown(E.a)) /\ E.u = Val(Neg(R, Shown(E.a)))

\* P23: the final exponentiation as a homomorphism onto the group of order R.
\* e holds the bases and their images <<x, y>>.
TFeBase == Is("febase") /\ Still /\ FIsEl(K, E.x) /\ E.x # FZero(K) /\ InMu(E.v) /\ e' = Append(e, <<E.x, E.v>>)
RECURSIVE Prod(_, _, _)
Prod(es, c, i) == IF i > Len(es) THEN FOne(K) ELSE FMul(K, FPow(K, e[i][c], es[i]), Prod(es, c, i + 1))
TFe == Is("fe") /\ Still /\ Keep /\ E.x = Prod(E.es, 1, 1) /\ InMu(E.v) /\ E.v = Prod(E.es, 2, 1)
\* elements of a proper subfield (of degree d over the prime field) go to one
TFeSub == Is("fesub") /\ Still /\ Keep /\ E.d < FDegree(K) /\ FDegree(K) % E.d = 0
       /\ E.x # FZero(K) /\ FFrob(K, E.x, E.d) = E.x /\ E.v = FOne(K)
\* the map is onto: some image in the history is not one
TFeOnto == Is("feonto") /\ Still /\ Keep /\ \E i \in 1..Len(e) : e[i][2] # FOne(K)

Next == \/ TBase \/ TPair \/ TAdd1 \/ TAdd2 \/ TPre1 \/ TPre2 \/ TReload \/ TMiller \/ TDouble \/ TQuot
        \/ TPQ \/ TMulF \/ TInvF \/ TPowF \/ TFinal \/ TFeBase \/ TFe \/ TFeSub \/ TFeOnto
        \/ (Finished /\ Still /\ Keep)
=============================================================================
