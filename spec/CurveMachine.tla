---------------------------- MODULE CurveMachine ----------------------------
(***************************************************************************)
(* A program computing in one elliptic curve group: a register file of     *)
(* points and one action per operation offered on group elements.  The     *)
(* state holds points only: internal representations are invisible.        *)
(***************************************************************************)
EXTENDS Params

VARIABLE reg
O == <<>>
Set(d, v) == reg' = [reg EXCEPT ![d] = v]
Same == UNCHANGED reg

\* entry of an arbitrary point of the curve
Load(G, d, v) == EOn(G.c, v) /\ Set(d, v)
Add(G, d, a, b) == Set(d, EAdd(G.c, reg[a], reg[b]))
Sub(G, d, a, b) == Set(d, ESub(G.c, reg[a], reg[b]))
Dbl(G, d, a) == Set(d, EDbl(G.c, reg[a]))
Neg(G, d, a) == Set(d, ENeg(G.c, reg[a]))
Copy(d, a) == Set(d, reg[a])
\* the distinguished points
Zero(d) == Set(d, O)
InSubgroup(G, P) == EMul(G.c, G.r, P) = O
One(G, d, v) == v # O /\ EOn(G.c, v) /\ Set(d, v)
\* multiples
Mul(G, d, k, a) == Set(d, EMul(G.c, k, reg[a]))
Cofactor(G, d, a) == Mul(G, d, G.h, a)
\* the map that is multiplication by the field characteristic on the subgroup
MulByQ(G, d, a) == InSubgroup(G, reg[a]) /\ Mul(G, d, G.q, a)
=============================================================================
