------------------------------ MODULE T_Params ------------------------------
(***************************************************************************)
(* The published constants of the fields and curves, each judged by the    *)
(* equation that defines it.  The parameters are the constant part of the  *)
(* state: no action changes them.                                          *)
(***************************************************************************)
EXTENDS Factors, TraceBase, UtilMath, Integers

Init == TInit
X == E.x
Minus1(n) == BSub(n, BOne)
Half(n) == BDiv(n, <<2>>)
Odd(n) == BBit(n, 0) = 1
\* order of the group, its 2-adic decomposition and the derived exponents
Adic(size) ==
  /\ Minus1(size) = BMul(BPow2(X.s), X.t) /\ Odd(X.t)
  /\ X.euler = Half(Minus1(size)) /\ X.tm = Half(Minus1(X.t))
\* a quadratic non-residue and its t-th power
NonSquare(F, a) == FPow(F, a, Half(Minus1(FSize(F)))) = FNeg(F, FOne(F))
NonResidue(F) == NonSquare(F, X.nqr) /\ X.nqrt = FPow(F, X.nqr, X.t)

PrimeOk == LET F == FieldOf(X.f) p == F.p R == BPow2(64 * X.n) IN
  /\ X.mod = p /\ X.char = p
  /\ X.bits = BBitLen(p) /\ X.ceil = BBitLen(p) /\ X.floor = BBitLen(p) - 1 /\ X.deg = 1
  /\ 64 * X.n >= BBitLen(p) /\ 64 * (X.n - 1) < BBitLen(p) /\ X.valid
  /\ Adic(p) /\ NonResidue(F)
  \* the generator generates, and its power is the 2^s-th root of unity
  /\ \A ell \in PrimeFactors(p) : FPow(F, X.gen, BDiv(Minus1(p), ell)) # FOne(F)
  /\ X.root = FPow(F, X.gen, X.t) /\ HasOrder(F, X.root, BPow2(X.s))
  \* constants of the internal form
  /\ X.r2 = BMod(BMul(R, R), p) /\ X.r3 = BMod(BMul(R, BMul(R, R)), p)
  /\ BMod(BAdd(BMul(X.inv, p), BOne), BPow2(64)) = BZero /\ BLt(X.inv, BPow2(64))
  /\ X.zero = FZero(F) /\ X.one = FOne(F) /\ X.ag = FOne(F) /\ X.gg = <<2>>

\* the field the tower's defining constant lives in
RECURSIVE NrField(_, _)
NrField(F, v) == IF FIsEl(F, v) THEN F ELSE NrField(F.b, v)
\* X^d - nr: the constant whose d-th root generates the tower over NrField
ExtOk == LET F == FieldOf(X.f) d == FDegree(F) p == FChar(F) IN
  /\ X.char = p /\ X.deg = d
  /\ X.ceil = d * BBitLen(p) /\ X.floor = d * (BBitLen(p) - 1)
  /\ Adic(BPow(p, d)) /\ NonResidue(F)
  /\ X.zero = FZero(F) /\ X.one = FOne(F)
  /\ LET N == NrField(F.b, X.nr) g == FGen(F)
         \* the adjoined element raised to the relative degree is the published constant
         rel == FDegree(F) \div FDegree(N) IN
     /\ FPow(F, g, BInt(IF X.f \in {"alt_bn128_Fq12", "bls12_381_Fq12", "edwards_Fq6", "mnt4_Fq4", "mnt6_Fq6"} THEN rel ELSE F.d)) = FLiftFrom(F, N, X.nr)
     /\ \A i \in 1..Len(X.coeffs) : LET C == X.coeffs[i] IN \A j \in 1..Len(C.v) :
          C.v[j] = FPow(N, X.nr, BDiv(BMul(BInt(C.mult), Minus1(BPow(p, j - 1))), BInt(C.div)))

BinOk == LET F == FieldOf(X.f) n == F.n IN
  /\ X.mod = F.m /\ X.bits = n /\ X.deg = n /\ X.ceil = n /\ X.floor = n /\ X.char = <<2>>
  /\ X.zero = <<>> /\ X.one = <<1>>
  /\ X.gen # <<>> /\ FIsEl(F, X.gen)
  /\ \A ell \in BinaryFactors(n) : FPow(F, X.gen, BDiv(Minus1(BPow2(n)), ell)) # FOne(F)

GroupOk == LET G == GroupOf(X.g) IN
  /\ X.one # <<>> /\ EOn(G.c, X.one) /\ EMul(G.c, G.r, X.one) = <<>> /\ X.zero = <<>>
  /\ X.order = G.r /\ X.char = G.q /\ X.wf
  /\ (Has(X, "h") => X.h = G.h)
  /\ X.bits = FDegree(G.c.F) * BBitLen(G.q) + 1
  /\ (Has(X, "ca") => X.ca = G.c.a) /\ (Has(X, "cd") => X.cd = G.c.d) /\ (Has(X, "cb") => X.cb = G.c.b)
  /\ (Has(X, "ca2") => X.ca2 = G.c.a /\ X.cb2 = G.c.b)
  \* h r is the number of points: within Hasse's bound of the field size
  /\ LET N == BMul(G.h, G.r) S == FSize(G.c.F) T == BAdd(S, BOne)
         D == IF BLt(N, T) THEN BSub(T, N) ELSE BSub(N, T) IN BLe(BMul(D, D), BMul(<<4>>, S))
MulByOk == LET G == GroupOf(X.g) IN X.y = FMul(G.c.F, X.x, CASE X.which = "a" -> G.c.a [] X.which = "b" -> G.c.b [] X.which = "d" -> G.c.d)

\* family equations; naturals with an explicit sign where needed
Abs(a, b) == IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b)
Pow(z, k) == BPow(z, k)
\* (size of the cyclotomic factor) / r = w1 q +- w0
Chunks(phi, q, r) == BMul(r, IF X.w0neg THEN BSub(BMul(X.w1, q), X.w0) ELSE BAdd(BMul(X.w1, q), X.w0)) = phi
Phi6(q) == BAdd(BSub(BMul(q, q), q), BOne)
CurveOk ==
  CASE X.c = "alt_bn128" ->
         LET z == X.z
             P(c) == BAdd(BAdd(BMul(<<36>>, Pow(z, 4)), BMul(<<36>>, Pow(z, 3))), BAdd(BMul(BInt(c), Pow(z, 2)), BAdd(BMul(<<6>>, z), BOne))) IN
         /\ ~X.zneg /\ P(24) = bn_q /\ P(18) = bn_r /\ X.loop = BAdd(BMul(<<6>>, z), <<2>>) /\ ~X.loopneg
    [] X.c = "bls12_381" ->
         LET z == X.z r == BAdd(BSub(Pow(z, 4), Pow(z, 2)), BOne) IN
         /\ X.zneg /\ r = bls_r /\ BMul(<<3>>, BAdd(bls_q, z)) = BMul(Pow(BAdd(z, BOne), 2), r)
         /\ X.loop = z /\ X.loopneg /\ BMul(X.fe, bls_r) = Minus1(BPow(bls_q, 12))
    [] X.c = "edwards" -> /\ X.loop = Abs(ed_q, BMul(<<4>>, ed_r)) /\ Chunks(Phi6(ed_q), ed_q, ed_r)
    [] X.c = "mnt4" -> /\ X.loop = Abs(m4_q, m4_r) /\ X.loopneg = BLt(m4_q, m4_r)
                       /\ BMul(X.fe, m4_r) = Minus1(BPow(m4_q, 4)) /\ Chunks(BAdd(BMul(m4_q, m4_q), BOne), m4_q, m4_r)
    [] X.c = "mnt6" -> /\ X.loop = Abs(m6_q, m6_r) /\ X.loopneg = BLt(m6_q, m6_r)
                       /\ BMul(X.fe, m6_r) = Minus1(BPow(m6_q, 6)) /\ Chunks(Phi6(m6_q), m6_q, m6_r)

TParam == Is("param") /\ CASE X.k = "prime" -> PrimeOk [] X.k = "ext" -> ExtOk [] X.k = "bin" -> BinOk
                           [] X.k = "group" -> GroupOk [] X.k = "mulby" -> MulByOk [] X.k = "curve" -> CurveOk
\* every point of the curve is annihilated by cofactor times order
TOnCurve == Is("oncurve") /\ LET G == GroupOf(E.g) IN EOn(G.c, E.P) /\ EMul(G.c, BMul(G.h, G.r), E.P) = <<>>
Next == TParam \/ TOnCurve \/ Finished
=============================================================================
