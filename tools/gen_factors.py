#!/usr/bin/env python3
"""Writes spec/Factors.tla: prime factors of the multiplicative group orders."""
import os
from gen_params import b, bn_q, bn_r, bls_q, bls_r, ed_q, ed_r, m4_q, m4_r
F = {
 "bn_q": [2, 3, 13, 29, 67, 229, 311, 983, 11003, 405928799, 11465965001, 13427688667394608761327070753331941386769],
 "bn_r": [2, 3, 13, 29, 983, 11003, 237073, 405928799, 1670836401704629, 13818364434197438864469338081],
 "bls_r": [2, 3, 11, 19, 10177, 125527, 859267, 906349, 2508409, 2529403, 52437899, 254760293],
 "ed_q": [2, 3, 5, 7, 17, 29, 53, 79, 263, 1021, 711890597413, 1682846480381357],
 "ed_r": [2, 3, 5, 7, 17, 29, 53, 79, 113, 263, 1021, 5679531856541001669394577],
 "m4_q": [2, 3, 5, 7, 43, 67, 167, 263, 832668823862928114206893884097921187, 46886843293762334669203941507635473727],
 "m4_r": [2, 3, 7, 43, 832668823862928114206893884097921187],
}
V = {"bn_q": bn_q, "bn_r": bn_r, "bls_r": bls_r, "bls_q": bls_q, "ed_q": ed_q, "ed_r": ed_r, "m4_q": m4_q, "m4_r": m4_r}
F["bls_q"] = [2, 3, 11, 23, 47, 10177, 859267, 52437899, 2584487767265781317813, 15778400344354997994418419698270088123916926905054652752758194827714659]
out = ["------------------------------- MODULE Factors -------------------------------",
       "(* Generated by tools/gen_factors.py: prime factors of p - 1 for the shipped", "   primes and of 2^n - 1 for the binary field widths. *)", "EXTENDS Params", "PrimeFactors(p) =="]
first = True
for k in F:
    n = V[k] - 1
    for f in F[k]:
        assert n % f == 0, (k, f)
        while n % f == 0: n //= f
    assert n == 1
    out.append("  %s p = %s -> {%s}" % ("CASE" if first else "  []", k, ", ".join(b(f) for f in F[k]))); first = False
B = {32: [3, 5, 17, 257, 65537], 64: [3, 5, 17, 257, 641, 65537, 6700417]}
B[128] = B[64] + [274177, 67280421310721]
B[256] = B[128] + [59649589127497217, 5704689200685129054721]
B[192] = [3, 5, 7, 13, 17, 97, 193, 241, 257, 641, 673, 65537, 6700417, 22253377, 18446744069414584321]
out.append("BinaryFactors(n) ==")
first = True
for k in B:
    n = 2**k - 1
    for f in B[k]:
        assert n % f == 0, (k, f)
        while n % f == 0: n //= f
    assert n == 1
    out.append("  %s n = %d -> {%s}" % ("CASE" if first else "  []", k, ", ".join(b(f) for f in B[k]))); first = False
out.append("=" * 77)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Factors.tla"), "w").write("\n".join(out) + "\n")
