-------------------------------- MODULE Big --------------------------------
(* The operators of BigPure under the names that java/Big.java accelerates. *)
EXTENDS BigPure
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)                 \* requires b <= a
BMul(a, b) == PMul(a, b)
BDiv(a, b) == PDiv(a, b)
BMod(a, b) == PMod(a, b)
BGcd(a, b) == PGcd(a, b)
BLt(a, b) == PLt(a, b)
BLe(a, b) == PLe(a, b)
BBit(a, i) == PBit(a, i)
BBitLen(a) == PBitLen(a)
BAnd(a, b) == PAnd(a, b)
BOr(a, b) == POr(a, b)
BPow2(k) == PPow2(k)
BPowMod(a, e, m) == PPowMod(a, e, m)
BFromBits(s) == PFromBits(s)
BInt(n) == PFromInt(n)
BToInt(a) == PToInt(a)
BZero == <<>>
BOne == <<1>>
\* the number made of 8-byte words, least significant first, each a Big
BFromWords(ws) == LET RECURSIVE W(_)
                      W(i) == IF i > Len(ws) THEN <<>>
                              ELSE BAdd(ws[i], BMul(BPow2(64), W(i + 1)))
                  IN W(1)
\* i-th 64-bit word (0-based)
BWord(a, i) == BMod(BDiv(a, BPow2(64 * i)), BPow2(64))
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN BOne ELSE BMul(a, BPow(a, n - 1))
=============================================================================
