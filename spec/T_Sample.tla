------------------------------ MODULE T_Sample ------------------------------
(* Recorded sampling and hashing to field elements. *)
EXTENDS SampleMachine, Hash, TraceBase

vars == <<st, l, ors, ands, eighths, drawn>>
Init == TInit /\ SInit
F == IF B.bits > 0 THEN BinF(B.bits, <<>>) ELSE FieldOf(B.field)
NoChange == UNCHANGED svars

TSamples ==
  /\ Is("samples")
  /\ LET K == Len(E.vs)
         ns == [k \in 1..K |-> Nums(F, E.vs[k], E.ms[k])]
     IN /\ Len(E.ms) = K /\ Len(E.cs) = K
        /\ \A k \in 1..K : E.cs[k] /\ Valid(F, E.vs[k], E.ms[k])
        /\ IF E.chosen THEN NoChange
           ELSE /\ \A k \in 1..K : WordsApart(E.ms[k], B.limbs)
                /\ Draw(F, ns)
                \* repetitions are as rare as the size of the field makes them
                /\ Cardinality(drawn') + 2 >= Cardinality(drawn) + K
TCovered == Is("covered") /\ Covered(F) /\ NoChange
\* the selective samplers return anything but what they exclude
TPick == /\ Is("pick") /\ E.c /\ FIsEl(F, E.v) /\ NoChange
         /\ E.v \notin (CASE E.kind = "non_zero" -> {FZero(F)}
                          [] E.kind = "non_zero_one" -> {FZero(F), FOne(F)}
                          [] E.kind = "exclude" -> {E.y})
THash == Is("hash") /\ E.c /\ E.v = HashElement(F.p, B.limbs, E.i) /\ NoChange

Next == TSamples \/ TCovered \/ TPick \/ THash \/ (Finished /\ NoChange)
=============================================================================
