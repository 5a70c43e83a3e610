----------------------------- MODULE OracleTest -----------------------------
(***************************************************************************)
(* The operators TLC evaluates in Java (Big, Fields, Curves) against their *)
(* TLA+ definitions (BigPure, FieldsPure, CurvesPure): all pairs of a set  *)
(* of corner numbers, whole multiplication tables of small fields, and     *)
(* whole addition tables of small curves of both forms, over a prime field *)
(* and an extension.                                                       *)
(***************************************************************************)
EXTENDS Curves, Params, IOUtils, FiniteSets, TLC
CONSTANT What
VARIABLE c
Deep == IOEnv.VERIF_TIER = "thorough"
\* ------------------------------------------------------------------ numbers
M(k) == BSub(BPow2(k), <<1>>)
Numbers == {BInt(n) : n \in {0, 1, 2, 255, 256}} \cup {M(64), BPow2(64), BSub(FieldOf("alt_bn128_Fr").p, <<1>>)}
           \cup (IF ~Deep THEN {} ELSE {BInt(n) : n \in {3, 128, 257, 65535, 1000003}} \cup {FieldOf("alt_bn128_Fq").p, M(32), BPow2(63), M(65), BPow2(192)})
NumbersAgree(a, b) ==
  /\ BAdd(a, b) = PAdd(a, b) /\ BMul(a, b) = PMul(a, b) /\ BLt(a, b) = PLt(a, b) /\ BLe(a, b) = PLe(a, b)
  /\ BAnd(a, b) = PAnd(a, b) /\ BOr(a, b) = POr(a, b)
  /\ (PLe(b, a) => BSub(a, b) = PSub(a, b))
  /\ (b # <<>> => BDiv(a, b) = PDiv(a, b) /\ BMod(a, b) = PMod(a, b))
  /\ BBitLen(a) = PBitLen(a) /\ \A i \in {0, 1, 7, 8, 63, 64, 200} : BBit(a, i) = PBit(a, i)
  /\ (PBitLen(a) <= 30 => BToInt(a) = PToInt(a) /\ BInt(PToInt(a)) = PFromInt(PToInt(a)))
  /\ (PBitLen(a) <= 8 => BPow2(PToInt(a)) = PPow2(PToInt(a)))
  /\ BFromBits([i \in 1..PBitLen(a) |-> PBit(a, i - 1)]) = a
  /\ (b # <<>> /\ PBitLen(a) <= 20 /\ PBitLen(b) <= 70 => BPowMod(<<3>>, a, b) = PPowMod(<<3>>, a, b))
  /\ (PBitLen(b) <= 16 => BGcd(a, b) = PGcd(a, b))
\* ------------------------------------------------------------------- fields
F13 == [k |-> "p", p |-> <<13>>]
F132 == [k |-> "x", b |-> F13, d |-> 2, nr |-> <<2>>]
F133 == [k |-> "x", b |-> F13, d |-> 3, nr |-> <<2>>]
F136 == [k |-> "x", b |-> F133, d |-> 2, nr |-> <<<<>>, <<1>>, <<>>>>]
G8 == BinF(8, <<27>>)                     \* X^8 + X^4 + X^3 + X + 1
P(n) == BInt(n)
E1 == {P(n) : n \in 0..12}
E2 == {<<x, y>> : x \in E1, y \in E1}
Few2 == {<<x, y>> : x \in {P(n) : n \in {0, 1, 5, 12}}, y \in {P(n) : n \in {0, 1, 7}}}
Few3 == {<<x, y, z>> : x \in {P(0), P(1), P(9)}, y \in {P(0), P(3)}, z \in {P(0), P(1), P(12)}}
Few6 == {<<x, y>> : x \in {<<P(2), P(0), P(5)>>, <<P(0), P(1), P(0)>>, <<P(0), P(0), P(0)>>}, y \in {<<P(0), P(0), P(0)>>, <<P(12), P(3), P(1)>>}}
Big1 == {BSub(FieldOf("alt_bn128_Fq").p, <<1>>)} \cup (IF Deep THEN {<<>>, <<1>>, BDiv(FieldOf("alt_bn128_Fq").p, <<3>>), M(200)} ELSE {})
G8s == {P(n) : n \in {0, 1, 2, 3, 27, 128, 129, 254, 255}}
FieldsAgree(F, a, b) ==
  /\ FAdd(F, a, b) = PFAdd(F, a, b) /\ FSub(F, a, b) = PFSub(F, a, b) /\ FMul(F, a, b) = PFMul(F, a, b)
  /\ FNeg(F, a) = PFNeg(F, a) /\ FZero(F) = PFZero(F) /\ FOne(F) = PFOne(F) /\ FSize(F) = PFSize(F)
  \* powers: by the definition in prime and binary fields; in extensions, where
  \* TLC would expand it over and over, by the products just checked
  /\ IF F.k = "x" \/ PBitLen(FSize(F)) > 16
     THEN LET a2 == FMul(F, a, a) a3 == FMul(F, a2, a) IN
          FPow(F, a, <<>>) = FOne(F) /\ FPow(F, a, <<1>>) = a /\ FPow(F, a, <<2>>) = a2 /\ FPow(F, a, <<11>>) = FMul(F, FMul(F, FMul(F, a3, a3), a3), a2)
     ELSE \A e \in {<<>>, <<1>>, <<2>>, <<11>>} : FPow(F, a, e) = PFPow(F, a, e)
  /\ (a = b /\ a # FZero(F) => FMul(F, a, FInv(F, a)) = PFOne(F))
  \* the definition of the inverse (a power) is that inverse where it can be computed
  /\ (a = b /\ a # FZero(F) /\ F.k # "x" /\ PBitLen(FSize(F)) <= 16 => FInv(F, a) = PFInv(F, a))
\* ------------------------------------------------------------------- curves
CurveOver(k, F, u, v) == IF k = "w" THEN [k |-> "w", F |-> F, a |-> u, b |-> v] ELSE [k |-> "e", F |-> F, a |-> u, d |-> v]
W1 == CurveOver("w", F13, P(2), P(5))
W0 == CurveOver("w", F13, P(0), P(3))
Ed == CurveOver("e", F13, P(1), P(2))      \* 2 is a non-square: the law is complete
W2 == CurveOver("w", F132, <<P(1), P(3)>>, <<P(0), P(1)>>)
Points(C, els) == {<<>>} \cup {p \in {<<x, y>> : x \in els, y \in els} : PEOn(C, p) /\ ~(C.k = "e" /\ p = <<P(0), P(1)>>)}
PtsW1 == Points(W1, E1)
PtsW0 == Points(W0, E1)
PtsEd == Points(Ed, E1)
Some(S, n) == IF Deep \/ Cardinality(S) <= n THEN S ELSE LET RECURSIVE T(_, _)
                                                           T(R, k) == IF k = 0 THEN {} ELSE LET x == CHOOSE x \in R : TRUE IN {x} \cup T(R \ {x}, k - 1)
                                                       IN T(S, n)
PtsW2 == Some(Points(W2, IF Deep THEN E2 ELSE Few2), 8)
CurvesAgree(C, p, q) ==
  /\ EOn(C, p) /\ EAdd(C, p, q) = PEAdd(C, p, q) /\ ENeg(C, p) = PENeg(C, p) /\ EOn(C, EAdd(C, p, q))
  /\ (p # <<>> => EOn(C, <<p[1], FAdd(C.F, p[2], FOne(C.F))>>) = PEOn(C, <<p[1], FAdd(C.F, p[2], FOne(C.F))>>))
  /\ \A k \in {<<>>, <<1>>, <<2>>, <<7>>} : EMul(C, k, p) = PEMul(C, k, p)
  /\ ESum(C, <<<<3>>, <<>>, <<5>>>>, <<p, q, q>>) = PESumMul(C, <<<<3>>, <<>>, <<5>>>>, <<p, q, q>>, 3)
-----------------------------------------------------------------------------
Pairs(t, S) == {<<t, x, y>> : x \in S, y \in S}
Init == c \in IF What = "fields"
              THEN Pairs("n", Numbers) \cup Pairs("13", E1) \cup {<<"13^2", x, y>> : x \in IF Deep THEN E2 ELSE Few2, y \in Few2} \cup Pairs("13^3", Few3)
                   \cup Pairs("13^6", Few6) \cup {<<"2^8", x, y>> : x \in IF Deep THEN {P(n) : n \in 0..255} ELSE G8s, y \in G8s} \cup Pairs("q", Big1)
              ELSE Pairs("w1", PtsW1) \cup Pairs("w0", PtsW0) \cup Pairs("e", PtsEd) \cup Pairs("w2", PtsW2)
Next == UNCHANGED c
Agree ==
  CASE c[1] = "n" -> NumbersAgree(c[2], c[3])
    [] c[1] = "13" -> FieldsAgree(F13, c[2], c[3])
    [] c[1] = "13^2" -> FieldsAgree(F132, c[2], c[3])
    [] c[1] = "13^3" -> FieldsAgree(F133, c[2], c[3])
    [] c[1] = "13^6" -> FieldsAgree(F136, c[2], c[3])
    [] c[1] = "2^8" -> FieldsAgree(G8, c[2], c[3])
    [] c[1] = "q" -> FieldsAgree(FieldOf("alt_bn128_Fq"), c[2], c[3])
    [] c[1] = "w1" -> CurvesAgree(W1, c[2], c[3])
    [] c[1] = "w0" -> CurvesAgree(W0, c[2], c[3])
    [] c[1] = "e" -> CurvesAgree(Ed, c[2], c[3])
    [] c[1] = "w2" -> CurvesAgree(W2, c[2], c[3])
=============================================================================
