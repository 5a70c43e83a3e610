------------------------------- MODULE Params -------------------------------
(* Generated by tools/gen_params.py: primes, towers and curves of libff. *)
EXTENDS Curves
bn_r == <<1,0,0,240,147,245,225,67,145,112,185,121,72,232,51,40,93,88,129,129,182,69,80,184,41,160,49,225,114,78,100,48>>
bn_q == <<71,253,124,216,22,140,32,60,141,202,113,104,145,106,129,151,93,88,129,129,182,69,80,184,41,160,49,225,114,78,100,48>>
bls_r == <<1,0,0,0,255,255,255,255,254,91,254,255,2,164,189,83,5,216,161,9,8,216,57,51,72,125,157,41,83,167,237,115>>
bls_q == <<171,170,255,255,255,255,254,185,255,255,83,177,254,255,171,30,36,246,176,246,160,210,48,103,191,18,133,243,132,75,119,100,215,172,75,67,182,167,27,75,154,230,127,57,234,17,1,26>>
ed_r == <<1,0,0,128,39,83,229,29,204,18,46,185,147,228,226,196,86,142,74,39,127,53,16>>
ed_q == <<1,0,0,128,11,105,235,182,65,45,52,214,78,146,139,19,91,57,42,157,252,213,64>>
m4_r == <<1,0,0,0,164,52,67,187,211,106,93,146,7,76,73,251,148,65,244,92,99,201,238,202,142,84,176,167,157,36,102,162,115,212,188,247,188,3>>
m4_q == <<1,0,102,113,90,214,12,201,18,14,32,81,94,227,169,65,234,48,19,93,99,201,238,202,142,84,176,167,157,36,102,162,115,212,188,247,188,3>>
m6_r == m4_q
m6_q == m4_r
PrimeF(P) == [k |-> "p", p |-> P]
ExtF(B, D, N) == [k |-> "x", b |-> B, d |-> D, nr |-> N]
BinF(N, M) == [k |-> "2", n |-> N, m |-> M]
bnFr == PrimeF(bn_r)
bnFq == PrimeF(bn_q)
blsFr == PrimeF(bls_r)
blsFq == PrimeF(bls_q)
edFr == PrimeF(ed_r)
edFq == PrimeF(ed_q)
m4Fr == PrimeF(m4_r)
m4Fq == PrimeF(m4_q)
m6Fr == PrimeF(m6_r)
m6Fq == PrimeF(m6_q)
bnFq2 == ExtF(bnFq, 2, FNeg(bnFq, <<1>>))
bnXi == <<<<9>>, <<1>>>>
bnFq6 == ExtF(bnFq2, 3, bnXi)
bnFq12 == ExtF(bnFq6, 2, FGen(bnFq6))
blsFq2 == ExtF(blsFq, 2, FNeg(blsFq, <<1>>))
blsXi == <<<<1>>, <<1>>>>
blsFq6 == ExtF(blsFq2, 3, blsXi)
blsFq12 == ExtF(blsFq6, 2, FGen(blsFq6))
edFq3 == ExtF(edFq, 3, <<61>>)
edFq6 == ExtF(edFq3, 2, FGen(edFq3))
m4Fq2 == ExtF(m4Fq, 2, <<17>>)
m4Fq4 == ExtF(m4Fq2, 2, FGen(m4Fq2))
m6Fq3 == ExtF(m6Fq, 3, <<5>>)
m6Fq6 == ExtF(m6Fq3, 2, FGen(m6Fq3))
gf32 == BinF(32, <<7,0,64>>)
gf64 == BinF(64, <<27>>)
gf128 == BinF(128, <<135>>)
gf192 == BinF(192, <<135>>)
gf256 == BinF(256, <<37,4>>)

FieldOf(name) ==
  CASE name = "alt_bn128_Fr" -> bnFr [] name = "alt_bn128_Fq" -> bnFq
    [] name = "alt_bn128_Fq2" -> bnFq2 [] name = "alt_bn128_Fq6" -> bnFq6 [] name = "alt_bn128_Fq12" -> bnFq12
    [] name = "bls12_381_Fr" -> blsFr [] name = "bls12_381_Fq" -> blsFq
    [] name = "bls12_381_Fq2" -> blsFq2 [] name = "bls12_381_Fq6" -> blsFq6 [] name = "bls12_381_Fq12" -> blsFq12
    [] name = "edwards_Fr" -> edFr [] name = "edwards_Fq" -> edFq
    [] name = "edwards_Fq3" -> edFq3 [] name = "edwards_Fq6" -> edFq6
    [] name = "mnt4_Fr" -> m4Fr [] name = "mnt4_Fq" -> m4Fq [] name = "mnt4_Fq2" -> m4Fq2 [] name = "mnt4_Fq4" -> m4Fq4
    [] name = "mnt6_Fr" -> m6Fr [] name = "mnt6_Fq" -> m6Fq [] name = "mnt6_Fq3" -> m6Fq3 [] name = "mnt6_Fq6" -> m6Fq6
    [] name = "gf32" -> gf32 [] name = "gf64" -> gf64 [] name = "gf128" -> gf128
    [] name = "gf192" -> gf192 [] name = "gf256" -> gf256

Wei(F, A, Bb) == [k |-> "w", F |-> F, a |-> A, b |-> Bb]
Edw(F, A, D) == [k |-> "e", F |-> F, a |-> A, d |-> D]
bnG1 == Wei(bnFq, <<>>, <<3>>)
bnG2 == Wei(bnFq2, FZero(bnFq2), FDivide(bnFq2, FInt(bnFq2, 3), bnXi))
blsG1 == Wei(blsFq, <<>>, <<4>>)
blsG2 == Wei(blsFq2, FZero(blsFq2), FMul(blsFq2, FInt(blsFq2, 4), blsXi))
m4b == <<213,15,236,40,245,14,75,93,81,26,210,156,78,15,152,123,92,8,10,7,162,210,237,195,79,35,35,213,164,94,88,21,148,99,39,90,84,3>>
m6b == <<130,82,198,208,99,148,165,219,125,228,253,99,210,162,177,32,180,9,252,131,230,36,108,61,77,196,113,123,149,46,4,221,197,29,123,140,214>>
edd == <<112,206,118,151,239,84,210,119,98,90,187,6,19,207,39,147,135,121,89,213,54,69,6>>
m4G1 == Wei(m4Fq, <<2>>, m4b)
m4G2 == Wei(m4Fq2, FMul(m4Fq2, FInt(m4Fq2, 2), FPow(m4Fq2, FGen(m4Fq2), <<2>>)), FMul(m4Fq2, FLift(m4Fq2, m4b), FPow(m4Fq2, FGen(m4Fq2), <<3>>)))
m6G1 == Wei(m6Fq, <<11>>, m6b)
m6G2 == Wei(m6Fq3, FMul(m6Fq3, FInt(m6Fq3, 11), FPow(m6Fq3, FGen(m6Fq3), <<2>>)), FMul(m6Fq3, FLift(m6Fq3, m6b), FPow(m6Fq3, FGen(m6Fq3), <<3>>)))
edG1 == Edw(edFq, <<1>>, edd)
edG2 == Edw(edFq3, FGen(edFq3), FMul(edFq3, FLift(edFq3, edd), FGen(edFq3)))

\* curve, order of the subgroup, cofactor, characteristic
GroupOf(name) ==
  CASE name = "alt_bn128_G1" -> [c |-> bnG1, r |-> bn_r, h |-> <<1>>, q |-> bn_q]
    [] name = "alt_bn128_G2" -> [c |-> bnG2, r |-> bn_r, h |-> <<141,250,249,192,153,34,95,52,137,36,42,87,218,236,206,6,94,88,129,129,182,69,80,184,41,160,49,225,114,78,100,48>>, q |-> bn_q]
    [] name = "bls12_381_G1" -> [c |-> blsG1, r |-> bls_r, h |-> <<171,170,0,0,171,170,0,140,86,225,85,85,0,140,108,57>>, q |-> bls_q]
    [] name = "bls12_381_G2" -> [c |-> blsG2, r |-> bls_r, h |-> <<229,56,114,28,227,56,28,207,112,12,111,120,110,236,22,22,174,145,102,58,41,126,83,33,239,130,158,77,203,241,40,166,223,125,90,46,91,32,138,166,186,90,8,71,69,222,145,205,2,162,118,40,121,80,29,9,241,231,20,84,169,67,213,5>>, q |-> bls_q]
    [] name = "edwards_G1" -> [c |-> edG1, r |-> ed_r, h |-> <<4>>, q |-> ed_q]
    [] name = "edwards_G2" -> [c |-> edG2, r |-> ed_r, h |-> <<0,0,0,0,65,177,77,168,168,9,61,244,186,48,78,210,109,56,71,34,109,160,146,62,223,46,197,207,17,137,58,199,196,203,111,225,185,67,100,242,170,175,179,196,174,65>>, q |-> ed_q]
    [] name = "mnt4_G1" -> [c |-> m4G1, r |-> m4_r, h |-> <<1>>, q |-> m4_q]
    [] name = "mnt4_G2" -> [c |-> m4G2, r |-> m4_r, h |-> <<1,0,204,226,16,120,214,214,81,177,226,15,181,122,10,136,63,32,50,93,99,201,238,202,142,84,176,167,157,36,102,162,115,212,188,247,188,3>>, q |-> m4_q]
    [] name = "mnt6_G1" -> [c |-> m6G1, r |-> m6_r, h |-> <<1>>, q |-> m6_q]
    [] name = "mnt6_G2" -> [c |-> m6G2, r |-> m6_r, h |-> <<0,0,0,0,236,157,113,212,239,113,23,211,129,64,16,148,97,127,46,178,165,101,77,63,65,11,62,64,40,78,18,51,185,55,166,182,159,233,150,240,187,255,247,192,112,152,32,149,64,2,53,32,54,210,146,242,161,241,84,212,28,139,139,233,94,211,104,200,228,172,16,58,75,249,13>>, q |-> m6_q]

=============================================================================
