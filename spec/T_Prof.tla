------------------------------- MODULE T_Prof -------------------------------
(* Recorded profiling histories under a controlled clock.                    *)
EXTENDS ProfMachine, TraceBase, Integers
vars == <<st, l, pvars>>
Init == TInit /\ PInit
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* after every step: the public tables
Tables == SetOf(E.cnt) = Pairs(cnt') /\ SetOf(E.last) = Pairs(last') /\ SetOf(E.cum) = Pairs(cum')
TEnter == Is("enter") /\ Tick(E.k) /\ Enter(E.n, E.i) /\ E.out = EnterOut(E.n) /\ Tables
Span == IF nocount THEN 0 ELSE IF \E i \in 1..Len(E.last) : E.last[i][1] = E.n THEN (CHOOSE x \in SetOf(E.last) : x[1] = E.n)[2] ELSE -1
TLeave == Is("leave") /\ Tick(E.k) /\ Leave(Span) /\ Top.n = E.n /\ Top.i = E.i /\ E.out = LeaveOut(Span) /\ Tables
TClear == Is("clear") /\ Tick(E.k) /\ Clear /\ E.out = <<>> /\ Tables
TCount == Is("count") /\ Tick(E.k) /\ SetCount(E.b) /\ E.out = <<>> /\ Tables
TPrint == Is("print") /\ Tick(E.k) /\ SetPrint(E.b) /\ E.out = <<>> /\ Tables
TTime == Is("time") /\ Tick(E.k) /\ PrintTime /\ E.out = PrintTimeOut(E.n) /\ Tables
TStart == Is("start") /\ Tick(E.k) /\ Start /\ Tables
TReport == Is("report") /\ Tick(E.k) /\ Look /\ Tables
           /\ {E.rep[i][1] : i \in 1..Len(E.rep)} = DOMAIN cum /\ Len(E.rep) = Cardinality(DOMAIN cum)
           /\ \A i \in 1..Len(E.rep) : Reported(E.rep[i][1], E.f, E.rep[i][2])
TIndent == Is("indent") /\ Tick(E.k) /\ Look /\ E.width = 2 * ind /\ Tables
\* blocks entered and left by the library itself, as its output shows them
TLibEnter == Is("libenter") /\ Tick(0) /\ Enter(E.n, TRUE) /\ E.out = EnterOut(E.n)
TLibLeave == Is("libleave") /\ Tick(0) /\ Leave(0) /\ Top.n = E.n /\ E.out = LeaveOut(0)
\* the library's function has returned: no block is left open, and the tables agree with the output
TLibDone == Is("libdone") /\ Tick(0) /\ Look /\ Len(stack) = E.open /\ Tables
Next == TEnter \/ TLeave \/ TClear \/ TCount \/ TPrint \/ TTime \/ TStart \/ TReport \/ TIndent
        \/ TLibEnter \/ TLibLeave \/ TLibDone \/ (Finished /\ UNCHANGED pvars)
=============================================================================
