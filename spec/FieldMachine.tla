---------------------------- MODULE FieldMachine ----------------------------
(***************************************************************************)
(* A program that computes with elements of one finite field: a register   *)
(* file and one action per operation the library offers on field elements. *)
(* Destination and operand registers may coincide.  Every action changes   *)
(* at most its destination register.                                       *)
(***************************************************************************)
EXTENDS Params

VARIABLE reg                   \* register file: a sequence of field elements

Set(d, v) == reg' = [reg EXCEPT ![d] = v]
Same == UNCHANGED reg

\* ring operations, in functional and in-place forms (d = a)
Add(F, d, a, b) == Set(d, FAdd(F, reg[a], reg[b]))
Sub(F, d, a, b) == Set(d, FSub(F, reg[a], reg[b]))
Mul(F, d, a, b) == Set(d, FMul(F, reg[a], reg[b]))
Neg(F, d, a) == Set(d, FNeg(F, reg[a]))
Sqr(F, d, a) == Set(d, FMul(F, reg[a], reg[a]))
Copy(d, a) == Set(d, reg[a])

\* inversion: the register must hold a unit
Inv(F, d, a) == /\ reg[a] # FZero(F)
                /\ Set(d, FInv(F, reg[a]))
\* exponentiation by a natural number of any size
Pow(F, d, a, e) == Set(d, FPow(F, reg[a], e))
\* k-th Frobenius map
Frob(F, d, a, k) == Set(d, FFrob(F, reg[a], k))
\* square root: either root is allowed
Sqrt(F, d, a, v) == /\ FIsEl(F, v)
                    /\ FMul(F, v, v) = reg[a]
                    /\ Set(d, v)
\* product with an element s of a field S lower in the tower
Scale(F, S, d, s, a) == Set(d, FMul(F, FLiftFrom(F, S, s), reg[a]))
\* product with the root adjoined last below F (x -> X x, X the root of the base field's extension)
MulByRoot(F, d, a, x) == Set(d, FMul(F, x, reg[a]))

\* the subgroup on which the cyclotomic shortcuts are promised: order divides Phi
CycOrder(F) == LET p == FChar(F) p2 == BMul(p, p) D == FDegree(F) IN
  CASE D = 4 -> BAdd(p2, <<1>>)
    [] D = 6 -> BAdd(BSub(p2, p), <<1>>)
    [] D = 12 -> BAdd(BSub(BMul(p2, p2), p2), <<1>>)
UnitaryOrder(F) == BAdd(BPow(FChar(F), FDegree(F) \div 2), <<1>>)
InSubgroup(F, x, n) == x # FZero(F) /\ FPow(F, x, n) = FOne(F)

\* loads
Load(F, d, v) == FIsEl(F, v) /\ Set(d, v)
\* the residue of a signed integer given by sign and magnitude
ResidueOf(F, neg, mag) == LET P == FPrime(F) r == BMod(mag, P.p)
                          IN IF neg THEN FNeg(P, r) ELSE r
=============================================================================
