------------------------------- MODULE T_Init -------------------------------
(* Recorded initialization histories.  B.ref holds what a process that       *)
(* initializes only the one curve observes.                                  *)
EXTENDS InitMachine, TraceBase
vars == <<st, l, cell, held>>
Init == TInit /\ IInit
Ref(c) == B.ref[c]
TFields == Is("fields") /\ InitFields(E.c)
TParams == (Is("params") \/ Is("pp")) /\ InitParams(E.c)
\* the parameters, as digests of their published constants
TLook == Is("look") /\ Watch /\ FieldsReady(E.c) /\ E.fields = Ref(E.c).fields
         /\ (IF Ready(E.c) THEN E.params = Ref(E.c).params ELSE TRUE)
THold == Is("hold") /\ (IF Ready(E.c) THEN Hold(E.c, E.e) ELSE HoldF(E.c, E.e)) /\ E.v = Ref(E.c)[E.e]
\* the i-th held value, looked at again
TAgain == Is("again") /\ Watch /\ E.i <= Len(held) /\ held[E.i].c = E.c /\ held[E.i].e = E.e /\ E.v = Ref(E.c)[E.e] /\ E.same
Next == TFields \/ TParams \/ TLook \/ THold \/ TAgain \/ (Finished /\ Watch)
=============================================================================
