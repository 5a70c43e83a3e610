------------------------------ MODULE GroupAlg ------------------------------
(***************************************************************************)
(* What the algorithms over abstract groups promise: signed-window         *)
(* recodings, sums of multiples, fixed-base tables and batch inversion.    *)
(***************************************************************************)
EXTENDS Curves, Integers

\* ds (least significant first) is a signed recoding of k with window w
Wnaf(k, w, ds) ==
  LET nz == {i \in DOMAIN ds : ds[i] # 0}
      pos == [i \in DOMAIN ds |-> IF ds[i] > 0 THEN BInt(ds[i]) ELSE BZero]
      neg == [i \in DOMAIN ds |-> IF ds[i] < 0 THEN BInt(-ds[i]) ELSE BZero]
      RECURSIVE V(_, _)
      V(s, i) == IF i > Len(s) THEN BZero ELSE BAdd(s[i], BMul(<<2>>, V(s, i + 1)))
  IN /\ \A i \in nz : ds[i] % 2 = 1 /\ ds[i] < 2^w /\ -ds[i] < 2^w
     /\ \A i \in nz : \A j \in (i + 1)..(i + w) : j \notin nz
     /\ BAdd(k, V(neg, 1)) = V(pos, 1)
\* the additive group Z_M, the abstract stand-in for any group of large order
ZMul(M, k, p) == BMod(BMul(k, p), M)
RECURSIVE ZSumTo(_, _, _, _)
ZSumTo(M, ks, ps, i) == IF i = 0 THEN BZero ELSE BMod(BAdd(ZMul(M, ks[i], ps[i]), ZSumTo(M, ks, ps, i - 1)), M)
ZSum(M, ks, ps) == ZSumTo(M, ks, ps, Len(ps))
\* sum of products in a field
RECURSIVE FInnerTo(_, _, _, _)
FInnerTo(F, as, bs, i) == IF i = 0 THEN FZero(F) ELSE FAdd(F, FMul(F, as[i], bs[i]), FInnerTo(F, as, bs, i - 1))
FInner(F, as, bs) == FInnerTo(F, as, bs, Len(as))
\* is xs the list of inverses of ys?
Inverses(F, xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(ys) : xs[i] = FInv(F, ys[i])
=============================================================================
