------------------------------- MODULE T_Conf -------------------------------
(* Recordings of one computation by several builds of the library.           *)
EXTENDS ConfMachine, TraceBase
vars == <<st, l, cvars>>
Init == TInit /\ CInit
TStart == Is("build") /\ StartBuild(E.b)
\* steps are told in groups; nothing abnormal among them
TSteps == Is("steps") /\ E.bad = 0 /\ Value(E.v)
TEnd == Is("endbuild") /\ EndBuild
Next == TStart \/ TSteps \/ TEnd \/ (Finished /\ build = 0 /\ UNCHANGED cvars)
=============================================================================
