-------------------------------- MODULE Hash --------------------------------
(* SHA-512 under the name java/Hash.java accelerates, and the field elements *)
(* derived from it.                                                          *)
EXTENDS Sha512
Digest(m) == PSha512(m)
Le8(x) == [i \in 1..8 |-> Byte(x, i)]
\* candidate number `try` for index i: the low words of the digest of the two
\* counters, cut to the length of the modulus
Candidate(p, limbs, i, try) ==
  LET d == Digest(Le8(i) \o Le8(BInt(try)))
  IN  BMod(PNorm(SubSeq(d, 1, 8 * limbs)), BPow2(BBitLen(p)))
RECURSIVE FirstBelow(_, _, _, _)
FirstBelow(p, limbs, i, try) ==
  LET c == Candidate(p, limbs, i, try) IN IF BLt(c, p) THEN c ELSE FirstBelow(p, limbs, i, try + 1)
HashElement(p, limbs, i) == FirstBelow(p, limbs, i, 0)
=============================================================================
