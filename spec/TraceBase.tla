----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading a recorded execution.  The log is a sequence of events; an event *)
(* with op = "Begin" starts a new, independent segment.  Each segment is    *)
(* one behaviour: the initial states are the segment starts, each step      *)
(* consumes one event by taking the specification action of that name, and  *)
(* a segment that is not accepted to its end shows up as a deadlock.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].op = "Begin"}

VARIABLES st, l                \* index of the segment's Begin; last consumed event
At(n) == Trace[n]
AtEnd == IF l = Len(Trace) THEN TRUE ELSE Trace[l + 1].op = "Begin"
E == Trace[l + 1]
B == Trace[st]
Is(name) == ~AtEnd /\ E.op = name /\ l' = l + 1 /\ UNCHANGED st
Finished == AtEnd /\ UNCHANGED <<st, l>>
TInit == st \in Starts /\ l = st
Has(r, f) == f \in DOMAIN r
=============================================================================
