------------------------------ MODULE T_Field ------------------------------
(* Trace validation for FieldMachine: logs of the field harnesses. *)
EXTENDS FieldMachine, TraceBase

F == IF Has(B, "field") THEN FieldOf(B.field) ELSE B.F
\* subfield named in an event
Sub1(e) == IF Has(e, "S") THEN FieldOf(e.S) ELSE e.SF
vars == <<st, l, reg>>

Init == TInit /\ reg = [i \in 1..Trace[st].n |-> FZero(IF Has(Trace[st], "field") THEN FieldOf(Trace[st].field) ELSE Trace[st].F)]

\* every logged result: the value read back, and its canonicity as seen through ==
Res(d) == reg'[d] = E.v /\ (Has(E, "c") => E.c)

TLoad == Is("load") /\ Load(F, E.d, E.v) /\ Res(E.d)
TLoadInt == Is("loadint") /\ Set(E.d, ResidueOf(F, E.neg, E.mag)) /\ Res(E.d)
TAdd == Is("add") /\ Add(F, E.d, E.a, E.b) /\ Res(E.d)
TSub == Is("sub") /\ Sub(F, E.d, E.a, E.b) /\ Res(E.d)
TMul == Is("mul") /\ Mul(F, E.d, E.a, E.b) /\ Res(E.d)
TIAdd == Is("iadd") /\ Add(F, E.d, E.d, E.b) /\ Res(E.d)
TISub == Is("isub") /\ Sub(F, E.d, E.d, E.b) /\ Res(E.d)
TIMul == Is("imul") /\ Mul(F, E.d, E.d, E.b) /\ Res(E.d)
TNeg == Is("neg") /\ Neg(F, E.d, E.a) /\ Res(E.d)
TSqr == Is("sqr") /\ Sqr(F, E.d, E.a) /\ Res(E.d)
TISqr == Is("isqr") /\ Sqr(F, E.d, E.d) /\ Res(E.d)
TCopy == Is("copy") /\ Copy(E.d, E.a) /\ Res(E.d)
TZero == Is("zero") /\ Set(E.d, FZero(F)) /\ Res(E.d)
TOne == Is("one") /\ Set(E.d, FOne(F)) /\ Res(E.d)
TInv == Is("inv") /\ Inv(F, E.d, E.a) /\ Res(E.d)
TIInv == Is("iinv") /\ Inv(F, E.d, E.d) /\ Res(E.d)
TPow == Is("pow") /\ Pow(F, E.d, E.a, E.e) /\ Res(E.d)
TIPow == Is("ipow") /\ Pow(F, E.d, E.d, E.e) /\ Res(E.d)
TFrob == Is("frob") /\ Frob(F, E.d, E.a, E.k) /\ Res(E.d)
TSqrt == Is("sqrt") /\ Sqrt(F, E.d, E.a, E.v) /\ Res(E.d)
TScale == Is("scale") /\ Scale(F, Sub1(E), E.d, E.s, E.a) /\ Res(E.d)
\* multiplication of an element of the base field by the root adjoined there
TMulNR == Is("mulnr") /\ E.v = FMul(F.b, F.nr, E.x) /\ Same
\* sparse product: the other factor written out in full
TSparse == Is("sparse") /\ Set(E.d, FMul(F, reg[E.a], E.y)) /\ Res(E.d)
\* shortcuts on the cyclotomic and unitary subgroups
TCycSqr == Is("cycsqr") /\ InSubgroup(F, reg[E.a], CycOrder(F)) /\ Sqr(F, E.d, E.a) /\ Res(E.d)
TCycInv == Is("cycinv") /\ InSubgroup(F, reg[E.a], UnitaryOrder(F)) /\ Inv(F, E.d, E.a) /\ Res(E.d)
TCycPow == Is("cycpow") /\ InSubgroup(F, reg[E.a], CycOrder(F)) /\ Pow(F, E.d, E.a, E.e) /\ Res(E.d)
\* several operators in one statement
Chain(k, d, a, b) ==
  CASE k = "addsub" -> FSub(F, FAdd(F, d, a), b)
    [] k = "muladd" -> FAdd(F, FMul(F, d, a), b)
    [] k = "mulplus" -> FAdd(F, FMul(F, a, b), d)
    [] k = "selfsub" -> a
    [] k = "cube" -> FPow(F, d, <<4>>)
    [] k = "sqrdbl" -> FAdd(F, FMul(F, d, d), FMul(F, d, d))
TChain == Is("chain") /\ Set(E.d, Chain(E.k, reg[E.d], reg[E.a], reg[E.b])) /\ Res(E.d)
\* complete tables over small fields: E.v lists the images of elements E.from..E.to-1
Entry(f, x, a, v) ==
  CASE f = "sqr" -> v = FMul(F, a, a)
    [] f = "neg" -> v = FNeg(F, a)
    [] f = "inv" -> FMul(F, a, v) = FOne(F) /\ FIsEl(F, v)
    [] f = "mul" -> v = FMul(F, IF x < 0 THEN a ELSE FEl(F, x), a)
    [] f = "add" -> v = FAdd(F, FEl(F, x), a)
    [] f = "sub" -> v = FSub(F, FEl(F, x), a)
    [] f = "pow" -> v = FPow(F, a, BInt(x))
    [] f = "frob" -> v = FFrob(F, a, x)
    [] f = "sqrtsq" -> FMul(F, v, v) = FMul(F, a, a) /\ FIsEl(F, v)
    [] f \in {"cycsqr", "cycinv", "cycpow"} ->
         LET c == FPow(F, a, BDiv(BSub(FSize(F), <<1>>), CycOrder(F)))
         IN v = (IF f = "cycsqr" THEN FMul(F, c, c) ELSE IF f = "cycinv" THEN FInv(F, c) ELSE FPow(F, c, BInt(x)))
TTable == /\ Is("table") /\ Same /\ E.c
          /\ Len(E.v) = E.to - E.from
          /\ \A i \in 1..Len(E.v) : Entry(E.f, E.x, FEl(F, E.from + i - 1), E.v[i])
\* observers
TEq == Is("eq") /\ Same /\ E.r = (reg[E.a] = reg[E.b]) /\ E.ne = (reg[E.a] # reg[E.b])
TIsZero == Is("iszero") /\ Same /\ E.r = (reg[E.a] = FZero(F))
TNum == Is("num") /\ Same /\ E.v = reg[E.a] /\ E.lo = BWord(reg[E.a], 0)
TDump == Is("dump") /\ Same /\ E.v = reg

Next == \/ TLoad \/ TLoadInt \/ TAdd \/ TSub \/ TMul \/ TIAdd \/ TISub \/ TIMul
        \/ TNeg \/ TSqr \/ TISqr \/ TCopy \/ TZero \/ TOne \/ TInv \/ TIInv \/ TPow \/ TIPow
        \/ TFrob \/ TSqrt \/ TScale \/ TMulNR \/ TSparse \/ TCycSqr \/ TCycInv \/ TCycPow
        \/ TChain \/ TTable \/ TEq \/ TIsZero \/ TNum \/ TDump
        \/ (Finished /\ Same)
=============================================================================
