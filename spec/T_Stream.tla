------------------------------ MODULE T_Stream ------------------------------
(* Recorded serialization histories. *)
EXTENDS Streams, TraceBase

VARIABLE enc                   \* encodings seen: a relation type x bytes -> value
vars == <<st, l, queue, wpos, rpos, enc>>
Init == TInit /\ SInit /\ enc = <<>>

\* equal values have equal encodings, different values different ones
Consistent(e) == \A i \in 1..Len(enc) : enc[i].t = e.t => (enc[i].b = e.b) = (enc[i].v = e.v)
Remember(e) == IF Has(e, "b") THEN Consistent(e) /\ enc' = Append(enc, [t |-> e.t, b |-> e.b, v |-> e.v]) ELSE enc' = enc

TWrite == Is("write") /\ Write(E.t, E.v, E.n) /\ Remember(E) /\ wpos' = E.pos
TSep == Is("sep") /\ Sep(E.n) /\ UNCHANGED enc
TSkip == Is("skip") /\ SkipSep(E.pos) /\ UNCHANGED enc
TRead == Is("read") /\ E.good /\ Read(E.t, E.v, E.pos) /\ (Has(E, "c") => E.c) /\ UNCHANGED enc
\* reserialize(x)
\* two values compare equal exactly if all their parts are
TCompare == Is("compare") /\ E.r = (E.v = E.w) /\ UNCHANGED <<queue, wpos, rpos, enc>>
TCycle == Is("cycle") /\ E.v = E.r /\ UNCHANGED <<queue, wpos, rpos, enc>>
TAllRead == Is("allread") /\ queue = <<>> /\ rpos = wpos /\ E.pos = rpos /\ UNCHANGED <<queue, wpos, rpos, enc>>

Next == TWrite \/ TSep \/ TSkip \/ TRead \/ TCycle \/ TCompare \/ TAllRead \/ (Finished /\ UNCHANGED <<queue, wpos, rpos, enc>>)
=============================================================================
