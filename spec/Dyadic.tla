------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Exact arithmetic of the numbers a binary floating-point word can hold:  *)
(* the dyadic rationals (-1)^n * m * 2^e, and pairs of them (the complex   *)
(* numbers with dyadic parts).  Rounding is not described: a computed      *)
(* value is compared with the exact one up to a stated error.              *)
(***************************************************************************)
EXTENDS Big, Integers

Dy(n, m, e) == [n |-> n, m |-> m, e |-> e]
D0 == Dy(FALSE, BZero, 0)
DNeg(x) == Dy(~x.n, x.m, x.e)
DAbs(x) == Dy(FALSE, x.m, x.e)
DMul(x, y) == Dy(x.n # y.n, BMul(x.m, y.m), x.e + y.e)
DScale(x, k) == Dy(x.n, x.m, x.e + k)                        \* x * 2^k
\* mantissa of x at exponent e <= x.e
At2(x, e) == BMul(x.m, BPow2(x.e - e))
Min2(a, b) == IF a < b THEN a ELSE b
DAdd(x, y) ==
  LET e == Min2(x.e, y.e) a == At2(x, e) b == At2(y, e) IN
  IF x.n = y.n THEN Dy(x.n, BAdd(a, b), e)
  ELSE IF BLt(a, b) THEN Dy(y.n, BSub(b, a), e) ELSE Dy(x.n, BSub(a, b), e)
DSub(x, y) == DAdd(x, DNeg(y))
DIsZero(x) == x.m = BZero
DLt(x, y) == LET d == DSub(x, y) IN ~DIsZero(d) /\ d.n
DLe(x, y) == ~DLt(y, x)
DEq(x, y) == DIsZero(DSub(x, y))
DInt(k) == Dy(FALSE, k, 0)                                   \* a natural number
\* integral part of a non-negative x
DFloor(x) == IF x.e >= 0 THEN BMul(x.m, BPow2(x.e)) ELSE BDiv(x.m, BPow2(-x.e))

CC(a, b) == [re |-> a, im |-> b]
C0 == CC(D0, D0)
C1 == CC(DInt(BOne), D0)
CAdd(x, y) == CC(DAdd(x.re, y.re), DAdd(x.im, y.im))
CNeg(x) == CC(DNeg(x.re), DNeg(x.im))
CSub(x, y) == CAdd(x, CNeg(y))
CMul(x, y) == CC(DSub(DMul(x.re, y.re), DMul(x.im, y.im)), DAdd(DMul(x.re, y.im), DMul(x.im, y.re)))
RECURSIVE CPow(_, _)
CPow(x, k) == IF k = 0 THEN C1 ELSE LET h == CPow(x, k \div 2) s == CMul(h, h) IN IF k % 2 = 1 THEN CMul(s, x) ELSE s
CNorm(x) == DAdd(DAbs(x.re), DAbs(x.im))                     \* |re| + |im|
CEq(x, y) == DEq(x.re, y.re) /\ DEq(x.im, y.im)
CIsZero(x) == DIsZero(x.re) /\ DIsZero(x.im)
\* r is x up to 2^-k times the size s
CNear(r, x, k, s) == DLe(CNorm(CSub(r, x)), DScale(s, -k))
=============================================================================
