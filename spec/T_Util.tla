------------------------------- MODULE T_Util -------------------------------
(***************************************************************************)
(* Recorded calls of the integer utilities, the root-of-unity function and *)
(* the packing functions, and a register machine of fixed-width integers   *)
(* (the bigint class).                                                     *)
(***************************************************************************)
EXTENDS UtilMath, TraceBase

VARIABLE big                     \* registers: the bigint objects of the program
vars == <<st, l, big>>
N == B.w                         \* width of the registers in words
Mont == B.mont
Init == TInit /\ big = [i \in 1..4 |-> BZero]
Same == UNCHANGED big
Set(d, v) == big' = [big EXCEPT ![d] = v]
InRange(v) == BBitLen(v) <= 64 * N

Threw == Has(E, "threw")
Fld == FieldOf(E.field)

Result(f) ==
  CASE f = "log2" -> E.r = CeilLog2(E.n)
    [] f = "pow2" -> E.r = NextPow2(E.n)                 \* get_power_of_two
    [] f = "roundpow2" -> E.r = NextPow2(E.n)
    [] f = "ispow2" -> E.r = IsPow2(E.n)
    [] f = "exp2" -> E.r = BPow2(E.k)
    [] f = "totwos" -> E.r = ToTwos(E.neg, E.mag, E.w)
    [] f = "fromtwos" -> [neg |-> E.neg, mag |-> E.mag] = FromTwos(E.i, E.w)
    [] f = "bitrev" -> E.r = BitReverse(E.n, E.k)
    [] f = "listbits" -> E.r = WordListBits(E.ws, E.w)
    [] f = "divceil" -> IF E.y = BZero THEN Threw ELSE ~Threw /\ E.r = CeilDiv(E.x, E.y)
    [] f = "format" -> E.r = E.want
    [] f = "endian" -> E.r = (E.first = 120)
    \* bit vectors written as text one after another and read back
    [] f = "bvtext" -> E.r = E.v /\ E.atend
    \* prime-field roots of unity
    [] f = "root" -> IF HasRoot(Fld, E.n) THEN ~Threw /\ FIsEl(Fld, E.r) /\ HasOrder(Fld, E.r, E.n)
                     ELSE Threw /\ E.threw = "invalid_argument"
    \* the roots for different sizes lie in one chain of subgroups
    [] f = "nested" -> FMul(Fld, E.q, E.q) = E.r
    \* the coset of the largest such subgroup shifted by this element is disjoint from it
    [] f = "coset" -> E.r = FMul(Fld, E.g, E.g) /\ FPow(Fld, E.r, BPow2(E.s)) # FOne(Fld)
    \* packing
    [] f = "towords" -> E.r = ToWords(Fld, Mont, E.x)
    [] f = "fromwords" -> FromWordsOk(Fld, Mont, E.ws, E.v, E.ok)
    [] f = "packbits" -> E.r = PackBits(E.v, E.c)
    [] f = "packbits0" -> E.r = PackBits(E.v, BBitLen(Fld.p) - 1)
    [] f = "packints" -> E.r = PackBits(IntBits(E.v, E.w), BBitLen(Fld.p) - 1)
    [] f = "bitstofield" -> E.r = BMod(BFromBits(E.v), Fld.p)
    [] f = "fieldtobits" -> E.r = Bits(E.x, BBitLen(Fld.p))
    [] f = "fieldtobitsn" -> E.r = Pad(Bits(E.x, BBitLen(Fld.p)), E.c)
    [] f = "fieldstobits" -> E.r = Concat([i \in 1..Len(E.x) |-> Bits(E.x[i], BBitLen(Fld.p))])
    [] f = "bitstofields" -> E.r = [i \in 1..Len(E.v) |-> IF E.v[i] = 1 THEN BOne ELSE BZero]
    [] f = "word" -> E.r = BWord(E.x, E.k)
    [] f = "sizes" -> /\ E.ceil = BBitLen(Fld.p) /\ E.floor = BBitLen(Fld.p) - 1
                      /\ E.log = BBitLen(Fld.p) /\ E.sound = BBitLen(Fld.p) - 1 /\ E.kind = 1
    [] f = "sizes2" -> E.ceil = Fld.n /\ E.floor = Fld.n /\ E.log = Fld.n /\ E.sound = Fld.n /\ E.kind = 2
TCall == Is("call") /\ Same /\ Result(E.f)

\* bigints
TFrom == Is("from") /\ InRange(E.v) /\ Set(E.d, E.v) /\ E.r = E.v
TCopy == Is("copy") /\ Set(E.d, big[E.a]) /\ E.r = big[E.a]
TClear == Is("clear") /\ Set(E.d, BZero) /\ E.r = BZero
TRandomize == Is("randomize") /\ InRange(E.r) /\ Set(E.d, E.r)
TObserve == /\ Is("observe") /\ Same
            /\ LET x == big[E.a] IN
               /\ E.words = WordsOf(x, N)
               /\ E.mpz = x /\ E.nbits = BBitLen(x) /\ E.maxbits = 64 * N
               /\ E.low = BWord(x, 0) /\ E.zero = (x = BZero) /\ E.even = (BBit(x, 0) = 0)
               /\ \A i \in 1..Len(E.bits) : E.bits[i] = BBit(x, E.at[i])
TCompare == /\ Is("compare") /\ Same
            /\ LET x == big[E.a] y == big[E.b] IN
               E.eq = (x = y) /\ E.ne = (x # y) /\ E.lt = BLt(x, y)
TDump == Is("dump") /\ Same /\ E.r = big

Next == TCall \/ TFrom \/ TCopy \/ TClear \/ TRandomize \/ TObserve \/ TCompare \/ TDump \/ (Finished /\ Same)
=============================================================================
