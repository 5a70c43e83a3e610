------------------------------ MODULE T_Print ------------------------------
(* What print() and its relatives wrote to standard output. *)
EXTENDS PrintMachine, Params, TraceBase
vars == <<st, l, term>>
Init == TInit /\ term = <<>>
\* what was read from the terminal is what has been shown, and showing leaves the value alone
Seen == E.out = term' /\ E.same
Fld == FieldOf(E.f)
Grp == GroupOf(E.g)
TField == Is("field") /\ Show(FieldLines(Fld, E.x)) /\ Seen
TInt == Is("int") /\ Show(IntLines(E.x)) /\ Seen
TPoint == Is("point") /\ Show(PointLines(Grp.c.F, E.m, E.X, E.Y, E.Z)) /\ Seen
TCoords == Is("coordinates") /\ Show(CoordinateLines(Grp.c.F, E.X, E.Y, E.Z)) /\ Seen
RECURSIVE Spaced(_, _)
Spaced(xs, i) == IF i > Len(xs) THEN <<>> ELSE xs[i] \o <<32>> \o Spaced(xs, i + 1)
\* { elem0 elem1 ... }
TVector == Is("vector") /\ E.bytes = <<123, 32>> \o Spaced(E.items, 1) \o <<125, 10>> /\ UNCHANGED term
\* a title stands alone on a line between two rules
Lines(b) == LET RECURSIVE L(_, _)
                L(i, cur) == IF i > Len(b) THEN <<cur>> ELSE IF b[i] = 10 THEN <<cur>> \o L(i + 1, <<>>) ELSE L(i + 1, Append(cur, b[i]))
            IN L(1, <<>>)
Rule(x) == Len(x) > 0 /\ \A i \in 1..Len(x) : x[i] = 61
THeader == /\ Is("header") /\ UNCHANGED term
           /\ LET ls == Lines(E.bytes) IN
              IF E.title = <<>> THEN (\E i \in 1..Len(ls) : Rule(ls[i])) /\ \A i \in 1..Len(ls) : ls[i] = <<>> \/ Rule(ls[i])
              ELSE \E i \in 2..(Len(ls) - 1) : ls[i] = E.title /\ Rule(ls[i - 1]) /\ Rule(ls[i + 1])
\* the report on the build names the options it was built with
TOption == Is("option") /\ UNCHANGED term /\ E.said = (IF E.is THEN "yes" ELSE "no")
Next == THeader \/ TOption \/ TField \/ TInt \/ TPoint \/ TCoords \/ TVector \/ (Finished /\ UNCHANGED term)
=============================================================================
