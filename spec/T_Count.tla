------------------------------ MODULE T_Count ------------------------------
(* Recorded counters of operations: of single operations on one type, and   *)
(* of blocks.                                                               *)
EXTENDS CountMachine, TraceBase
vars == <<st, l, cvars>>
Init == TInit /\ CInit(Trace[st].cnt)
\* counters of a field type: add, sub, mul, sqr, inv; of a group: add, dbl
Free(e) == CASE e.k = "neg" -> {"sub"}                         \* a negation may count as a subtraction
             [] e.k = "special" -> {"add", "dbl"}              \* sums with the identity or of equal points
             [] e.k = "equal" -> {"add", "dbl"}                \* a doubling asked for as a sum: one or both, but not neither
             [] OTHER -> {}
Once(k) == E.cnt[k] - cnt[k] \in {0, 1}
TOp == Is("do") /\ (E.k \in {"special", "equal"} => Once("add") /\ Once("dbl")) /\ (E.k = "equal" => E.cnt["add"] + E.cnt["dbl"] > cnt["add"] + cnt["dbl"]) /\ Op(E.cnt, E.k, Free(E))
TWork == Is("work") /\ Work(E.cnt)
Counted(out) == Len(out) = 1
TEnter == Is("enter") /\ Enter(E.n)
TLeave == Is("leave") /\ Top.n = E.n
          /\ IF Printing THEN Len(E.out) = 1 /\ Leave(E.out[1])
             ELSE E.out = <<>> /\ Leave(IF Recording THEN Minus(cnt, ent[Top.n]) ELSE cnt)
TClear == Is("clear") /\ Clear
TCount == Is("count") /\ SetCount(E.b)
TPrint == Is("print") /\ SetPrint(E.b)
Of(rs, n) == {i \in 1..Len(rs) : rs[i].n = n}
Shown == IF E.fq THEN {k \in DOMAIN cnt : k \in {"Fqadd", "Fqsub", "Fqmul", "Fqinv"}} ELSE DOMAIN cnt
TReport == Is("report") /\ Look
           /\ {E.rep[i].n : i \in 1..Len(E.rep)} = DOMAIN inv /\ Len(E.rep) = Cardinality(DOMAIN inv)
           /\ \A i \in 1..Len(E.rep) : LET r == E.rep[i] IN
                /\ DOMAIN r.c = Shown
                /\ \A k \in Shown : Rounds(tot[r.n][k], inv[r.n], r.c[k][1]) /\ r.c[k][2] = inv[r.n]
Next == TOp \/ TWork \/ TEnter \/ TLeave \/ TClear \/ TCount \/ TPrint \/ TReport \/ (Finished /\ UNCHANGED cvars)
=============================================================================
