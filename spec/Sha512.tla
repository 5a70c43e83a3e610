------------------------------- MODULE Sha512 -------------------------------
(***************************************************************************)
(* SHA-512 (FIPS 180-4) in pure TLA+: words are sequences of 64 bits, most *)
(* significant first.  The round constants are not a table: they are the   *)
(* fractional parts of the roots of the first primes.                      *)
(***************************************************************************)
EXTENDS Big, FiniteSets

Word == [1..64 -> {0, 1}]
X2(a, b) == [i \in 1..64 |-> (a[i] + b[i]) % 2]
X3(a, b, c) == [i \in 1..64 |-> (a[i] + b[i] + c[i]) % 2]
And(a, b) == [i \in 1..64 |-> a[i] * b[i]]
Not(a) == [i \in 1..64 |-> 1 - a[i]]
Rotr(a, n) == [i \in 1..64 |-> a[((i - 1 - n) % 64) + 1]]
Shr(a, n) == [i \in 1..64 |-> IF i <= n THEN 0 ELSE a[i - n]]
Num(a) == BFromBits([i \in 1..64 |-> a[65 - i]])
WordOf(x) == [i \in 1..64 |-> BBit(x, 64 - i)]
RECURSIVE Sum(_)
Sum(ws) == IF ws = <<>> THEN BZero ELSE BAdd(Num(ws[1]), Sum(Tail(ws)))
Plus(ws) == WordOf(Sum(ws))                    \* modulo 2^64

Ch(x, y, z) == X2(And(x, y), And(Not(x), z))
Maj(x, y, z) == X3(And(x, y), And(x, z), And(y, z))
S0(x) == X3(Rotr(x, 28), Rotr(x, 34), Rotr(x, 39))
S1(x) == X3(Rotr(x, 14), Rotr(x, 18), Rotr(x, 41))
s0(x) == X3(Rotr(x, 1), Rotr(x, 8), Shr(x, 7))
s1(x) == X3(Rotr(x, 19), Rotr(x, 61), Shr(x, 6))

IsPrimeInt(n) == \A d \in 2..(n - 1) : n % d # 0
RECURSIVE PrimesFrom(_, _)
PrimesFrom(n, k) == IF k = 0 THEN <<>> ELSE IF IsPrimeInt(n) THEN <<n>> \o PrimesFrom(n + 1, k - 1) ELSE PrimesFrom(n + 1, k)
Primes80 == PrimesFrom(2, 80)
\* floor of the k-th root of n, by bisection on the bits
RECURSIVE RootFrom(_, _, _, _)
RootFrom(n, k, i, r) == IF i < 0 THEN r
                        ELSE LET t == BAdd(r, BPow2(i)) IN RootFrom(n, k, i - 1, IF BLe(BPow(t, k), n) THEN t ELSE r)
Frac(p, k) == WordOf(RootFrom(BMul(BInt(p), BPow2(64 * k)), k, 69, BZero))   \* low 64 bits
K512 == [t \in 1..80 |-> Frac(Primes80[t], 3)]
H512 == [t \in 1..8 |-> Frac(Primes80[t], 2)]

\* a message is a sequence of bytes
Padded(m) == LET z == (239 - Len(m)) % 128 IN
             m \o <<128>> \o [i \in 1..(z + 8) |-> 0]
               \o [i \in 1..8 |-> Byte(BInt(8 * Len(m)), 9 - i)]
WordAt(m, o) == [i \in 1..64 |-> PBit(<<m[o + ((i - 1) \div 8) + 1]>>, 7 - ((i - 1) % 8))]
RECURSIVE Schedule(_, _)
Schedule(w, t) == IF t > 80 THEN w
                  ELSE Schedule(Append(w, Plus(<<s1(w[t - 2]), w[t - 7], s0(w[t - 15]), w[t - 16]>>)), t + 1)
RECURSIVE Rounds(_, _, _)
Rounds(v, w, t) ==
  IF t > 80 THEN v
  ELSE LET t1 == Plus(<<v[8], S1(v[5]), Ch(v[5], v[6], v[7]), K512[t], w[t]>>)
           t2 == Plus(<<S0(v[1]), Maj(v[1], v[2], v[3])>>)
       IN  Rounds(<<Plus(<<t1, t2>>), v[1], v[2], v[3], Plus(<<v[4], t1>>), v[5], v[6], v[7]>>, w, t + 1)
Compress(h, m, o) == LET r == Rounds(h, Schedule([i \in 1..16 |-> WordAt(m, o + 8 * (i - 1))], 17), 1)
                     IN  [i \in 1..8 |-> Plus(<<h[i], r[i]>>)]
RECURSIVE Blocks(_, _, _)
Blocks(h, m, o) == IF o >= Len(m) THEN h ELSE Blocks(Compress(h, m, o), m, o + 128)
PSha512(m) == LET h == Blocks(H512, Padded(m), 0)
              IN  [i \in 1..64 |-> Byte(Num(h[((i - 1) \div 8) + 1]), 8 - ((i - 1) % 8))]
=============================================================================
