---------------------------- MODULE PrintMachine ----------------------------
(***************************************************************************)
(* A terminal on which values are shown.  Showing a value appends lines    *)
(* from which the value can be told: the numbers that make it up, whatever *)
(* the form it is kept in.  A line is [o |-> is it the word for the        *)
(* identity, n |-> the numbers on it]; words around them do not matter.    *)
(***************************************************************************)
EXTENDS Fields
VARIABLES term                 \* the last lines shown
Show(ls) == term' = ls
Numbers(ns) == [o |-> FALSE, n |-> ns]
Identity == [o |-> TRUE, n |-> <<>>]

\* an element is shown coefficient by coefficient, one to a line
FieldLines(F, x) == LET c == FFlat(F, x) IN [i \in 1..Len(c) |-> Numbers(<<c[i]>>)]
IntLines(x) == <<Numbers(<<x>>)>>

\* a point on one line, the highest coefficient of each coordinate first
Down(F, x) == LET c == FFlat(F, x) IN [i \in 1..Len(c) |-> c[Len(c) + 1 - i]]
\* affine coordinates of (X : Y : Z) in the model m
AffX(F, m, X, Y, Z) == CASE m = "jacobian" -> FDivide(F, X, FMul(F, Z, Z)) [] m = "projective" -> FDivide(F, X, Z) [] m = "inverted" -> FDivide(F, Z, X)
AffY(F, m, X, Y, Z) == CASE m = "jacobian" -> FDivide(F, Y, FMul(F, Z, FMul(F, Z, Z))) [] m = "projective" -> FDivide(F, Y, Z) [] m = "inverted" -> FDivide(F, Z, Y)
PointLines(F, m, X, Y, Z) ==
  IF Z = FZero(F) THEN <<Identity>> ELSE <<Numbers(Down(F, AffX(F, m, X, Y, Z)) \o Down(F, AffY(F, m, X, Y, Z)))>>
CoordinateLines(F, X, Y, Z) ==
  IF Z = FZero(F) THEN <<Identity>> ELSE <<Numbers(Down(F, X) \o Down(F, Y) \o Down(F, Z))>>
=============================================================================
