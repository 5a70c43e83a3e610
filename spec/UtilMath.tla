------------------------------ MODULE UtilMath ------------------------------
(***************************************************************************)
(* The mathematical meaning of libff's integer and bit utilities, of       *)
(* multi-precision integers and of word/bit packing of field elements.     *)
(* Numbers are Bigs (little-endian byte sequences), bit vectors are         *)
(* sequences of 0/1.                                                       *)
(***************************************************************************)
EXTENDS Params

W64 == BPow2(64)
IsPow2(n) == n # BZero /\ n = BPow2(BBitLen(n) - 1)
\* ceiling of the base-2 logarithm; 0 for 0 (the library's convention)
CeilLog2(n) == IF n = BZero THEN 0 ELSE IF IsPow2(n) THEN BBitLen(n) - 1 ELSE BBitLen(n)
NextPow2(n) == BPow2(CeilLog2(n))
\* two's complement of width w
ToTwos(neg, mag, w) == IF neg THEN BSub(BPow2(w), mag) ELSE mag
FromTwos(i, w) == IF BBit(i, w - 1) = 1 THEN [neg |-> TRUE, mag |-> BSub(BPow2(w), i)] ELSE [neg |-> FALSE, mag |-> i]
Bits(x, n) == [i \in 1..n |-> BBit(x, i - 1)]                       \* least significant first
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BitReverse(x, n) == BFromBits(Reverse(Bits(x, n)))
CeilDiv(x, y) == BDiv(BAdd(x, BSub(y, BOne)), y)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
\* the words of a list, each written with n bits, most significant first
WordListBits(ws, n) == Concat([i \in 1..Len(ws) |-> Reverse(Bits(ws[i], n))])
\* ---------------------------------------------------------------- packing
\* field element i of a packing of bits v into chunks of c bits
BitAt(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
Chunk(v, c, i) == BFromBits([j \in 1..c |-> BitAt(v, (i - 1) * c + j)])
NChunks(n, c) == (n + c - 1) \div c
PackBits(v, c) == [i \in 1..NChunks(Len(v), c) |-> Chunk(v, c, i)]
IntBits(ws, w) == Concat([i \in 1..Len(ws) |-> Bits(ws[i], w)])
Pad(v, n) == [i \in 1..n |-> BitAt(v, i)]
\* the words of an element: every prime-field coefficient in the external
\* representation (Montgomery form or standard), n words each
LimbsOf(P) == (BBitLen(P.p) + 63) \div 64
MontR(P) == BPow2(64 * LimbsOf(P))
Ext(P, mont, x) == IF mont THEN BMod(BMul(x, MontR(P)), P.p) ELSE x
WordsOf(x, n) == [i \in 1..n |-> BWord(x, i - 1)]
ToWords(F, mont, a) ==
  IF F.k = "2" THEN WordsOf(a, (F.n + 63) \div 64)
  ELSE LET P == FPrime(F) n == LimbsOf(P) fl == FFlat(F, a)
       IN Concat([i \in 1..Len(fl) |-> WordsOf(Ext(P, mont, fl[i]), n)])
\* the number held in the ceil_size_in_bits rightmost bits of words (coefficient i)
CoefWords(F, ws, i) == LET per == Len(ws) \div FDegree(F) IN SubSeq(ws, (i - 1) * per + 1, i * per)
RawCoef(P, ws) == LET n == LimbsOf(P)
                  IN BMod(BFromWords(SubSeq(ws, Len(ws) - n + 1, Len(ws))), BPow2(BBitLen(P.p)))
\* does a rebuilt element v and its validity flag ok agree with words ws?
FromWordsOk(F, mont, ws, v, ok) ==
  IF F.k = "2" THEN v = BMod(BFromWords(ws), BPow2(F.n)) /\ ok
  ELSE LET P == FPrime(F)
           fl == FFlat(F, v)
           raw == [i \in 1..FDegree(F) |-> RawCoef(P, CoefWords(F, ws, i))]
       IN /\ ok = (\A i \in 1..Len(raw) : BLt(raw[i], P.p))
          /\ \A i \in 1..Len(raw) : BLt(raw[i], P.p) => Ext(P, mont, fl[i]) = raw[i]
\* ------------------------------------------------------------ roots of unity
RECURSIVE TwoAdicity(_)
TwoAdicity(n) == IF BBit(n, 0) = 1 THEN 0 ELSE 1 + TwoAdicity(BDiv(n, <<2>>))
HasRoot(F, n) == IsPow2(n) /\ BMod(BSub(F.p, BOne), n) = BZero
HasOrder(F, x, n) == FPow(F, x, n) = FOne(F) /\ (n = BOne \/ FPow(F, x, BDiv(n, <<2>>)) # FOne(F))
=============================================================================
