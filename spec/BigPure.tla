------------------------------ MODULE BigPure ------------------------------
(***************************************************************************)
(* Natural numbers of any size, in pure TLA+.                              *)
(*                                                                         *)
(* TLC integers are 32 bits wide, so a number is a little-endian sequence  *)
(* of bytes without trailing zero bytes; zero is the empty sequence.  This *)
(* module is the definition; module Big offers the same operators under    *)
(* names for which java/Big.java supplies fast implementations, and module *)
(* SelfTest has TLC compare the two.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE PNorm(_)
PNorm(s) == IF s = <<>> THEN s
            ELSE IF s[Len(s)] = 0 THEN PNorm(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* (written with IF: TLC treats a disjunction inside an action as a choice)
IsBig(s) == IF s = <<>> THEN TRUE
            ELSE s[Len(s)] # 0 /\ \A i \in 1..Len(s) : s[i] \in 0..255

RECURSIVE PFromInt(_)
PFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o PFromInt(n \div 256)

RECURSIVE PToInt(_)
PToInt(s) == IF s = <<>> THEN 0 ELSE s[1] + 256 * PToInt(Tail(s))

Byte(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
PMax(a, b) == IF a < b THEN b ELSE a

RECURSIVE PAddC(_, _, _, _, _)
PAddC(a, b, i, n, c) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Byte(a, i) + Byte(b, i) + c
       IN  <<t % 256>> \o PAddC(a, b, i + 1, n, t \div 256)
PAdd(a, b) == PNorm(PAddC(a, b, 1, PMax(Len(a), Len(b)), 0))

RECURSIVE PSubB(_, _, _, _)
PSubB(a, b, i, br) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == 256 + a[i] - Byte(b, i) - br
       IN  <<t % 256>> \o PSubB(a, b, i + 1, IF t < 256 THEN 1 ELSE 0)
PSub(a, b) == PNorm(PSubB(a, b, 1, 0))          \* requires b <= a

RECURSIVE PLtAt(_, _, _)
PLtAt(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE PLtAt(a, b, i - 1)
PLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE PLtAt(a, b, Len(a))
PLe(a, b) == IF a = b THEN TRUE ELSE PLt(a, b)

RECURSIVE PMulD(_, _, _, _)
PMulD(a, d, i, c) ==                              \* a * d for one byte d
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c IN <<t % 256>> \o PMulD(a, d, i + 1, t \div 256)
RECURSIVE PMul(_, _)
PMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE PNorm(PAdd(PMulD(a, b[1], 1, 0), <<0>> \o PMul(a, Tail(b))))

\* bits, most significant first handled through positions 0..8*Len-1
Pow2Int(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8
              ELSE IF k = 4 THEN 16 ELSE IF k = 5 THEN 32 ELSE IF k = 6 THEN 64 ELSE 128
PBit(a, i) == (Byte(a, (i \div 8) + 1) \div Pow2Int(i % 8)) % 2
RECURSIVE PByteLen(_)
PByteLen(d) == IF d = 0 THEN 0 ELSE 1 + PByteLen(d \div 2)
PBitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + PByteLen(a[Len(a)])
PPow2(k) == [j \in 1..((k \div 8) + 1) |-> IF j = (k \div 8) + 1 THEN Pow2Int(k % 8) ELSE 0]

RECURSIVE PBitwise(_, _, _, _)
\* bitwise combination through the bits
PBitwise(a, b, i, both) ==
  IF i < 0 THEN <<>>
  ELSE LET t == PBitwise(a, b, i - 1, both) IN
       IF PBit(a, i) + PBit(b, i) >= both THEN PAdd(t, PPow2(i)) ELSE t
PAnd(a, b) == PBitwise(a, b, PMax(PBitLen(a), PBitLen(b)), 2)
POr(a, b) == PBitwise(a, b, PMax(PBitLen(a), PBitLen(b)), 1)

\* long division, one bit at a time
RECURSIVE PDivStep(_, _, _, _, _)
PDivStep(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r2 == PNorm(PAdd(PAdd(r, r), IF PBit(a, i) = 1 THEN <<1>> ELSE <<>>))
           ge == PLe(b, r2)
       IN  PDivStep(a, b, i - 1, PAdd(PAdd(q, q), IF ge THEN <<1>> ELSE <<>>),
                    IF ge THEN PSub(r2, b) ELSE r2)
PDivMod(a, b) == PDivStep(a, b, PBitLen(a) - 1, <<>>, <<>>)
PDiv(a, b) == PDivMod(a, b)[1]
PMod(a, b) == PDivMod(a, b)[2]

RECURSIVE PGcd(_, _)
PGcd(a, b) == IF b = <<>> THEN a ELSE PGcd(b, PMod(a, b))

RECURSIVE PPowModB(_, _, _, _, _)
PPowModB(a, e, m, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET sq == PMod(PMul(acc, acc), m)
       IN  PPowModB(a, e, m, i - 1, IF PBit(e, i) = 1 THEN PMod(PMul(sq, a), m) ELSE sq)
PPowMod(a, e, m) == PPowModB(a, e, m, PBitLen(e) - 1, PMod(<<1>>, m))

\* value of a sequence of bits, least significant first
RECURSIVE PFromBits(_)
PFromBits(s) == IF s = <<>> THEN <<>>
                ELSE LET t == PFromBits(Tail(s)) IN PAdd(PAdd(t, t), PFromInt(s[1]))
=============================================================================
