#!/usr/bin/env python3
"""Writes spec/Params.tla: the curve and field parameters the specification is about.

The BN254 and BLS12-381 primes are computed from their published family
polynomials, the Edwards/MNT ones are the published constants; consistency
(primality, group orders, tower irreducibility) is checked by TLC in Params'
own ASSUMEs and by check P09."""
import os
def b(n):
    out=[]
    while n: out.append(n&255); n>>=8
    return "<<"+",".join(map(str,out))+">>"
x=4965661367192848881
bn_q=36*x**4+36*x**3+24*x**2+6*x+1
bn_r=36*x**4+36*x**3+18*x**2+6*x+1
z=-0xd201000000010000
bls_r=z**4-z**2+1
bls_q=(z-1)**2*bls_r//3+z
ed_r=1552511030102430251236801561344621993261920897571225601
ed_q=6210044120409721004947206240885978274523751269793792001
m4_r=475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137
m4_q=475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081
ed_d=600581931845324488256649384912508268813600056237543024
m4_b=423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685
m6_b=106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074
L=[]
w=L.append
w("------------------------------- MODULE Params -------------------------------")
w("(* Generated by tools/gen_params.py: primes, towers and curves of libff. *)")
w("EXTENDS Curves")
def d(n,v): w(f"{n} == {v}")
for n,r,q in (("bn",bn_r,bn_q),("bls",bls_r,bls_q),("ed",ed_r,ed_q),("m4",m4_r,m4_q)):
    d(n+"_r",b(r)); d(n+"_q",b(q))
d("m6_r","m4_q"); d("m6_q","m4_r")
d("PrimeF(P)","[k |-> \"p\", p |-> P]")
d("ExtF(B, D, N)","[k |-> \"x\", b |-> B, d |-> D, nr |-> N]")
d("BinF(N, M)","[k |-> \"2\", n |-> N, m |-> M]")
for c in ("bn","bls","ed","m4","m6"):
    d(f"{c}Fr",f"PrimeF({c}_r)"); d(f"{c}Fq",f"PrimeF({c}_q)")
# BN / BLS: u^2 = -1, v^3 = xi, w^2 = v
d("bnFq2","ExtF(bnFq, 2, FNeg(bnFq, <<1>>))")
d("bnXi","<<<<9>>, <<1>>>>")
d("bnFq6","ExtF(bnFq2, 3, bnXi)")
d("bnFq12","ExtF(bnFq6, 2, FGen(bnFq6))")
d("blsFq2","ExtF(blsFq, 2, FNeg(blsFq, <<1>>))")
d("blsXi","<<<<1>>, <<1>>>>")
d("blsFq6","ExtF(blsFq2, 3, blsXi)")
d("blsFq12","ExtF(blsFq6, 2, FGen(blsFq6))")
d("edFq3","ExtF(edFq, 3, <<61>>)")
d("edFq6","ExtF(edFq3, 2, FGen(edFq3))")
d("m4Fq2","ExtF(m4Fq, 2, <<17>>)")
d("m4Fq4","ExtF(m4Fq2, 2, FGen(m4Fq2))")
d("m6Fq3","ExtF(m6Fq, 3, <<5>>)")
d("m6Fq6","ExtF(m6Fq3, 2, FGen(m6Fq3))")
# binary fields: x^32+x^22+x^2+x+1, x^64+x^4+x^3+x+1, x^128+x^7+x^2+x+1, x^192+x^7+x^2+x+1, x^256+x^10+x^5+x^2+1
d("gf32",f"BinF(32, {b((1<<22)|7)})")
d("gf64",f"BinF(64, {b(0b11011)})")
d("gf128",f"BinF(128, {b(0b10000111)})")
d("gf192",f"BinF(192, {b(0b10000111)})")
d("gf256",f"BinF(256, {b((1<<10)|(1<<5)|4|1)})")
w('''
FieldOf(name) ==
  CASE name = "alt_bn128_Fr" -> bnFr [] name = "alt_bn128_Fq" -> bnFq
    [] name = "alt_bn128_Fq2" -> bnFq2 [] name = "alt_bn128_Fq6" -> bnFq6 [] name = "alt_bn128_Fq12" -> bnFq12
    [] name = "bls12_381_Fr" -> blsFr [] name = "bls12_381_Fq" -> blsFq
    [] name = "bls12_381_Fq2" -> blsFq2 [] name = "bls12_381_Fq6" -> blsFq6 [] name = "bls12_381_Fq12" -> blsFq12
    [] name = "edwards_Fr" -> edFr [] name = "edwards_Fq" -> edFq
    [] name = "edwards_Fq3" -> edFq3 [] name = "edwards_Fq6" -> edFq6
    [] name = "mnt4_Fr" -> m4Fr [] name = "mnt4_Fq" -> m4Fq [] name = "mnt4_Fq2" -> m4Fq2 [] name = "mnt4_Fq4" -> m4Fq4
    [] name = "mnt6_Fr" -> m6Fr [] name = "mnt6_Fq" -> m6Fq [] name = "mnt6_Fq3" -> m6Fq3 [] name = "mnt6_Fq6" -> m6Fq6
    [] name = "gf32" -> gf32 [] name = "gf64" -> gf64 [] name = "gf128" -> gf128
    [] name = "gf192" -> gf192 [] name = "gf256" -> gf256
''')
# curves: short Weierstrass y^2 = x^3 + a x + b, or Edwards a x^2 + y^2 = 1 + d x^2 y^2
def isq(n):
    import math
    return math.isqrt(n)
t_bn=bn_q+1-bn_r; h_bn2=2*bn_q-bn_r
h_bls1=(z-1)**2//3
h_bls2=(z**8-4*z**7+5*z**6-4*z**4+6*z**3-4*z**2-4*z+13)//9
# order of the quadratic twist over F_{q^k} from the trace over F_q
def tr(t,q,k):
    a,c=2,t
    for _ in range(k-1): a,c=c,t*c-q*a
    return c
t4=m4_q+1-m4_r; h_m42=(m4_q**2+1+tr(t4,m4_q,2))//m4_r; assert h_m42*m4_r==m4_q**2+1+tr(t4,m4_q,2)
m6_q,m6_r=m4_r,m4_q
t6=m6_q+1-m6_r; h_m62=(m6_q**3+1+tr(t6,m6_q,3))//m6_r; assert h_m62*m6_r==m6_q**3+1+tr(t6,m6_q,3)
te=ed_q+1-4*ed_r; h_ed2=(ed_q**3+1+tr(te,ed_q,3))//ed_r; assert h_ed2*ed_r==ed_q**3+1+tr(te,ed_q,3)
w('Wei(F, A, Bb) == [k |-> "w", F |-> F, a |-> A, b |-> Bb]')
w('Edw(F, A, D) == [k |-> "e", F |-> F, a |-> A, d |-> D]')
d("bnG1","Wei(bnFq, <<>>, <<3>>)")
d("bnG2","Wei(bnFq2, FZero(bnFq2), FDivide(bnFq2, FInt(bnFq2, 3), bnXi))")
d("blsG1","Wei(blsFq, <<>>, <<4>>)")
d("blsG2","Wei(blsFq2, FZero(blsFq2), FMul(blsFq2, FInt(blsFq2, 4), blsXi))")
d("m4b",b(m4_b)); d("m6b",b(m6_b)); d("edd",b(ed_d))
d("m4G1","Wei(m4Fq, <<2>>, m4b)")
d("m4G2","Wei(m4Fq2, FMul(m4Fq2, FInt(m4Fq2, 2), FPow(m4Fq2, FGen(m4Fq2), <<2>>)), FMul(m4Fq2, FLift(m4Fq2, m4b), FPow(m4Fq2, FGen(m4Fq2), <<3>>)))")
d("m6G1","Wei(m6Fq, <<11>>, m6b)")
d("m6G2","Wei(m6Fq3, FMul(m6Fq3, FInt(m6Fq3, 11), FPow(m6Fq3, FGen(m6Fq3), <<2>>)), FMul(m6Fq3, FLift(m6Fq3, m6b), FPow(m6Fq3, FGen(m6Fq3), <<3>>)))")
d("edG1","Edw(edFq, <<1>>, edd)")
d("edG2","Edw(edFq3, FGen(edFq3), FMul(edFq3, FLift(edFq3, edd), FGen(edFq3)))")
w(r"""
\* curve, order of the subgroup, cofactor, characteristic
GroupOf(name) ==
  CASE name = "alt_bn128_G1" -> [c |-> bnG1, r |-> bn_r, h |-> <<1>>, q |-> bn_q]
    [] name = "alt_bn128_G2" -> [c |-> bnG2, r |-> bn_r, h |-> %s, q |-> bn_q]
    [] name = "bls12_381_G1" -> [c |-> blsG1, r |-> bls_r, h |-> %s, q |-> bls_q]
    [] name = "bls12_381_G2" -> [c |-> blsG2, r |-> bls_r, h |-> %s, q |-> bls_q]
    [] name = "edwards_G1" -> [c |-> edG1, r |-> ed_r, h |-> <<4>>, q |-> ed_q]
    [] name = "edwards_G2" -> [c |-> edG2, r |-> ed_r, h |-> %s, q |-> ed_q]
    [] name = "mnt4_G1" -> [c |-> m4G1, r |-> m4_r, h |-> <<1>>, q |-> m4_q]
    [] name = "mnt4_G2" -> [c |-> m4G2, r |-> m4_r, h |-> %s, q |-> m4_q]
    [] name = "mnt6_G1" -> [c |-> m6G1, r |-> m6_r, h |-> <<1>>, q |-> m6_q]
    [] name = "mnt6_G2" -> [c |-> m6G2, r |-> m6_r, h |-> %s, q |-> m6_q]
""" % tuple(map(b,(h_bn2,h_bls1,h_bls2,h_ed2,h_m42,h_m62))))
w("=============================================================================")
open(os.path.join(os.path.dirname(__file__),"..","spec","Params.tla"),"w").write("\n".join(L)+"\n")
