--------------------------- MODULE PairingMachine ---------------------------
(***************************************************************************)
(* A program evaluating pairing products of one curve.  Everything is      *)
(* written relative to the generators: a precomputed G1 (G2) operand holds *)
(* its discrete logarithm, a Miller value holds the exponent to which the  *)
(* pairing of the generators is raised once the final exponentiation has   *)
(* been applied.  How the value is evaluated (projective or affine, one    *)
(* loop or two pairs at once, stored and reloaded operands) is invisible.  *)
(* Scalars are naturals of Big, R is the prime order of the groups.        *)
(***************************************************************************)
EXTENDS Big, Sequences

VARIABLES p, q, f
ZeroS == <<>>
Neg(R, x) == BMod(BSub(R, BMod(x, R)), R)
SetP(d, v) == p' = [p EXCEPT ![d] = v] /\ UNCHANGED <<q, f>>
SetQ(d, v) == q' = [q EXCEPT ![d] = v] /\ UNCHANGED <<p, f>>
SetF(d, v) == f' = [f EXCEPT ![d] = v] /\ UNCHANGED <<p, q>>
Still == UNCHANGED <<p, q, f>>

\* precompute a*G1 and b*G2
Pre1(R, d, a) == SetP(d, BMod(a, R))
Pre2(R, d, b) == SetQ(d, BMod(b, R))
\* write and read back an operand: no change
Reload == Still
E1(R, i, j) == BMod(BMul(p[i], q[j]), R)
Miller(R, d, i, j) == SetF(d, E1(R, i, j))
Double(R, d, i, j, k, m) == SetF(d, BMod(BAdd(E1(R, i, j), E1(R, k, m)), R))
\* e(i,j) / e(k,m)  and  e(i,j) e(k,m) / e(s,t)
Quot(R, d, i, j, k, m) == SetF(d, BMod(BAdd(E1(R, i, j), Neg(R, E1(R, k, m))), R))
ProdQuot(R, d, i, j, k, m, s, t) == SetF(d, BMod(BAdd(BAdd(E1(R, i, j), E1(R, k, m)), Neg(R, E1(R, s, t))), R))
MulF(R, d, a, b) == SetF(d, BMod(BAdd(f[a], f[b]), R))
InvF(R, d, a) == SetF(d, Neg(R, f[a]))
\* raising a Miller value to a scalar
PowF(R, d, a, k) == SetF(d, BMod(BMul(f[a], k), R))
\* the final exponentiation shows the exponent
Shown(a) == f[a]
=============================================================================
