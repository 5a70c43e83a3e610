----------------------------- MODULE FieldsPure -----------------------------
(***************************************************************************)
(* Finite fields as values.                                                *)
(*   [k |-> "p", p |-> P]                integers modulo the prime P       *)
(*   [k |-> "x", b |-> B, d |-> D, nr |-> N]   B[X]/(X^D - N), N in B      *)
(*   [k |-> "2", n |-> N, m |-> M]       GF(2)[X]/(X^N + M), M as bits     *)
(* An element of a prime or binary field is a number (module BigPure), an  *)
(* element of an extension is the sequence of its D coefficients.          *)
(***************************************************************************)
EXTENDS Big

RECURSIVE PFZero(_), PFOne(_), PFAdd(_, _, _), PFNeg(_, _), PFMul(_, _, _), PFIsEl(_, _), PFSize(_)

\* carry-less arithmetic for binary fields
RECURSIVE XorByte(_, _, _)
XorByte(a, b, w) == IF w = 0 THEN 0
  ELSE ((a + b) % 2) + 2 * XorByte(a \div 2, b \div 2, w - 1)
PXor(a, b) == PNorm([i \in 1..PMax(Len(a), Len(b)) |-> XorByte(Byte(a, i), Byte(b, i), 8)])
PShl1(a) == PAdd(a, a)
P2Dbl(F, a) == LET s == PShl1(a) IN     \* multiply by X
  IF PBit(s, F.n) = 1 THEN PXor(PXor(s, PPow2(F.n)), F.m) ELSE s
RECURSIVE P2Mul(_, _, _, _, _)
P2Mul(F, a, b, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET d == P2Dbl(F, acc)
       IN P2Mul(F, a, b, i - 1, IF PBit(b, i) = 1 THEN PXor(d, a) ELSE d)

PFZero(F) == IF F.k = "x" THEN [i \in 1..F.d |-> PFZero(F.b)] ELSE <<>>
PFOne(F) == IF F.k = "x" THEN [i \in 1..F.d |-> IF i = 1 THEN PFOne(F.b) ELSE PFZero(F.b)]
            ELSE <<1>>
PFIsEl(F, a) ==
  CASE F.k = "p" -> IsBig(a) /\ PLt(a, F.p)
    [] F.k = "2" -> IsBig(a) /\ PBitLen(a) <= F.n
    [] F.k = "x" -> Len(a) = F.d /\ \A i \in 1..F.d : PFIsEl(F.b, a[i])
PFAdd(F, a, b) ==
  CASE F.k = "p" -> PMod(PAdd(a, b), F.p)
    [] F.k = "2" -> PXor(a, b)
    [] F.k = "x" -> [i \in 1..F.d |-> PFAdd(F.b, a[i], b[i])]
PFNeg(F, a) ==
  CASE F.k = "p" -> IF a = <<>> THEN <<>> ELSE PSub(F.p, a)
    [] F.k = "2" -> a
    [] F.k = "x" -> [i \in 1..F.d |-> PFNeg(F.b, a[i])]
PFSub(F, a, b) == PFAdd(F, a, PFNeg(F, b))

\* sum over i+j = k of a_i b_j plus nr times the sum over i+j = k+d (0-based)
RECURSIVE PFSumProd(_, _, _, _, _)
PFSumProd(F, a, b, s, i) ==      \* sum_{i' >= i} a[i'] b[s - i'] over valid 0-based indices
  IF i >= F.d THEN PFZero(F.b)
  ELSE LET r == PFSumProd(F, a, b, s, i + 1)
       IN IF s - i >= 0 /\ s - i < F.d THEN PFAdd(F.b, r, PFMul(F.b, a[i + 1], b[s - i + 1]))
          ELSE r
PFMul(F, a, b) ==
  CASE F.k = "p" -> PMod(PMul(a, b), F.p)
    [] F.k = "2" -> P2Mul(F, a, b, F.n - 1, <<>>)
    [] F.k = "x" -> [i \in 1..F.d |->
          PFAdd(F.b, PFSumProd(F, a, b, i - 1, 0),
                PFMul(F.b, F.nr, PFSumProd(F, a, b, i - 1 + F.d, 0)))]
PFSize(F) == CASE F.k = "p" -> F.p
               [] F.k = "2" -> PPow2(F.n)
               [] F.k = "x" -> BPow(PFSize(F.b), F.d)
RECURSIVE PFPowB(_, _, _, _, _)
PFPowB(F, a, e, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET sq == PFMul(F, acc, acc)
       IN PFPowB(F, a, e, i - 1, IF PBit(e, i) = 1 THEN PFMul(F, sq, a) ELSE sq)
PFPow(F, a, e) == PFPowB(F, a, e, PBitLen(e) - 1, PFOne(F))
PFInv(F, a) == PFPow(F, a, PSub(PFSize(F), <<2>>))     \* a # 0
=============================================================================
