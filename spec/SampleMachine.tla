--------------------------- MODULE SampleMachine ---------------------------
(***************************************************************************)
(* A sampler of field elements and what has been seen of it.  Its state is *)
(* an abstraction of the set of samples drawn so far: which bits have been *)
(* seen set and clear, and which eighths of the range have been hit, per   *)
(* coefficient and in both representations of a coefficient.               *)
(***************************************************************************)
EXTENDS Params, FiniteSets

VARIABLES ors, ands, eighths, drawn
svars == <<ors, ands, eighths, drawn>>

SInit == ors = <<>> /\ ands = <<>> /\ eighths = {} /\ drawn = {}
\* the numbers a sample consists of: coefficients, as values and as stored
Nums(F, x, m) == FFlat(F, x) \o m
Bound(F) == IF F.k = "2" THEN BPow2(F.n) ELSE FPrime(F).p
Bits(F) == BBitLen(PSub(Bound(F), <<1>>))
Valid(F, x, m) == /\ FIsEl(F, x)
                  /\ \A i \in 1..Len(m) : BLt(m[i], Bound(F))
RECURSIVE Fold(_, _, _, _)
\* Op folded over the i-th numbers of all samples
Fold(Op(_, _), ns, i, acc) == IF ns = <<>> THEN acc ELSE Fold(Op, Tail(ns), i, Op(acc, ns[1][i]))
Draw(F, ns) ==
  /\ ors' = [i \in 1..Len(ns[1]) |-> Fold(BOr, ns, i, IF ors = <<>> THEN BZero ELSE ors[i])]
  /\ ands' = [i \in 1..Len(ns[1]) |-> Fold(BAnd, ns, i, IF ands = <<>> THEN ns[1][i] ELSE ands[i])]
  /\ eighths' = eighths \cup {<<i, BToInt(BDiv(BMul(ns[k][i], <<8>>), Bound(F)))>> : k \in 1..Len(ns), i \in 1..Len(ns[1])}
  /\ drawn' = drawn \cup {ns[k] : k \in 1..Len(ns)}
\* no part of the range is out of reach: every bit below the top one takes both
\* values and every eighth of the range is hit, in every coefficient
Covered(F) ==
  \A i \in 1..Len(ors) :
    /\ \A j \in 0..(Bits(F) - 2) : BBit(ors[i], j) = 1 /\ BBit(ands[i], j) = 0
    /\ \A e \in 0..7 : <<i, e>> \in eighths
\* coefficients and their words are drawn independently: none repeats another
WordsApart(m, limbs) == limbs * Len(m) = Cardinality({BWord(m[i], j) : i \in 1..Len(m), j \in 0..(limbs - 1)})
=============================================================================
