------------------------------ MODULE T_Double ------------------------------
(***************************************************************************)
(* A register machine of the floating-point complex numbers that stand in  *)
(* for a field element (libff::Double).  The registers hold exactly what   *)
(* the objects hold; each operation must produce the exact result of its   *)
(* arguments up to rounding, and the exact result where the arguments are  *)
(* small integers, for which rounding never happens.                       *)
(***************************************************************************)
EXTENDS Dyadic, TraceBase

VARIABLES reg, cnt,                \* objects; counted operations since the segment's start
          last                     \* the last root of unity given out: <<order, value>>
vars == <<st, l, reg, cnt, last>>
NoCount == [add |-> 0, sub |-> 0, mul |-> 0, inv |-> 0]
Init == TInit /\ reg = [i \in 1..4 |-> C0] /\ cnt = NoCount /\ last = <<1, C1>>
\* with counting on, c operations of kind k
Count(k) == cnt' = IF B.counting THEN [cnt EXCEPT ![k] = @ + 1] ELSE cnt
\* (the loop of an exponentiation is not prescribed)
AnyCount == IF B.counting THEN cnt' = E.cnt ELSE cnt' = cnt
Put(v) == E.finite /\ reg' = [reg EXCEPT ![E.d] = v] /\ (B.counting => E.cnt = cnt')

Small(x) == /\ DEq(x.re, Dy(x.re.n, DFloor(DAbs(x.re)), 0)) /\ DEq(x.im, Dy(x.im.n, DFloor(DAbs(x.im)), 0))
            /\ DLt(CNorm(x), DInt(BPow2(20)))
Result(exact, size, k, small) == IF small THEN CEq(E.v, exact) ELSE CNear(E.v, exact, k, size)
X == reg[E.a]
Y == reg[E.b]

TSet == Is("set") /\ UNCHANGED cnt /\ Put(E.v)
TAdd == Is("add") /\ Result(CAdd(X, Y), DAdd(CNorm(X), CNorm(Y)), 50, Small(X) /\ Small(Y)) /\ Count("add") /\ Put(E.v)
TSub == Is("sub") /\ Result(CSub(X, Y), DAdd(CNorm(X), CNorm(Y)), 50, Small(X) /\ Small(Y)) /\ Count("sub") /\ Put(E.v)
TMul == Is("mul") /\ Result(CMul(X, Y), DMul(CNorm(X), CNorm(Y)), 50, Small(X) /\ Small(Y)) /\ Count("mul") /\ Put(E.v)
TSquared == Is("squared") /\ Result(CMul(X, X), DMul(CNorm(X), CNorm(X)), 50, Small(X)) /\ AnyCount /\ Put(E.v)
TNeg == Is("neg") /\ CEq(E.v, CNeg(X)) /\ UNCHANGED cnt /\ Put(E.v)
TInverse == /\ Is("inverse") /\ Count("inv") /\ Put(E.v)
            /\ ~CIsZero(X) /\ CNear(CMul(E.v, X), C1, 47, DInt(<<1>>))
TPow == /\ Is("pow") /\ AnyCount /\ Put(E.v)
        /\ Result(CPow(X, E.k), CNorm(CPow(CC(CNorm(X), D0), E.k)), 40, E.k = 0 \/ CIsZero(X) \/ CEq(X, C1))
TConst == /\ Is("const") /\ UNCHANGED cnt /\ Put(E.v)
          /\ CEq(E.v, CASE E.k = "zero" -> C0 [] E.k = "one" -> C1 [] E.k = "default" -> C0
                        [] E.k = "geometric" -> CC(DInt(<<2>>), D0) [] E.k = "arithmetic" -> C1)
\* sampled: a real integer of at most 1000
TRandom == Is("random") /\ UNCHANGED cnt /\ Put(E.v) /\ Small(E.v) /\ DIsZero(E.v.im) /\ ~(E.v.re.n /\ ~DIsZero(E.v.re)) /\ DLe(E.v.re, DInt(BInt(1000)))
\* comparison is up to 10^-6 in each part: decided here where both parts agree
\* exactly or one differs by clearly more or clearly less
Tiny(d) == DLe(DAbs(d), Dy(FALSE, <<1>>, -21))               \* < 0.5 * 10^-6
Clear(d) == DLe(Dy(FALSE, <<1>>, -19), DAbs(d))              \* > 1.9 * 10^-6
TCompare == /\ Is("compare") /\ UNCHANGED <<reg, cnt>>
            /\ LET dr == DSub(X.re, Y.re) di == DSub(X.im, Y.im) IN
               /\ E.ne = ~E.eq
               /\ (Tiny(dr) /\ Tiny(di)) => E.eq
               /\ (Clear(dr) \/ Clear(di)) => ~E.eq
               /\ E.lt = DLt(X.re, Y.re) /\ E.gt = DLt(Y.re, X.re)
\* integral part of a non-negative real part
TInt == Is("int") /\ UNCHANGED <<reg, cnt>> /\ E.big = DFloor(X.re) /\ E.ulong = DFloor(X.re)
\* the n-th root of unity at angle 2 pi / n
TRoot == /\ Is("root") /\ UNCHANGED cnt /\ Put(E.v) /\ last' = <<E.n, E.v>>
         /\ IF E.n <= 32 THEN CNear(CPow(E.v, E.n), C1, 40, DInt(<<1>>))
            ELSE last[1] * 2 = E.n /\ CNear(CMul(E.v, E.v), last[2], 45, DInt(<<1>>))
         /\ IF E.n = 1 THEN CNear(E.v, C1, 45, DInt(<<1>>))
            ELSE IF E.n = 2 THEN CNear(E.v, CNeg(C1), 45, DInt(<<1>>))
            ELSE \* the root of smallest positive angle: sin(2 pi / n) <= 2 pi / n < 7 / n, and half the root comes next
                 /\ DLt(D0, E.v.im) /\ (E.n = 3 \/ DLe(Dy(TRUE, <<1>>, -45), E.v.re))
                 /\ E.n >= 4 => DLt(DMul(E.v.im, DInt(BInt(E.n))), DInt(<<7>>))
Next == \/ TSet \/ TAdd \/ TSub \/ TMul \/ TSquared \/ TNeg \/ TInverse \/ TPow \/ TConst \/ TRandom
        \/ TCompare \/ TInt \/ (Finished /\ UNCHANGED <<reg, cnt>>)
NextAll == TRoot \/ (Next /\ UNCHANGED last)
=============================================================================
