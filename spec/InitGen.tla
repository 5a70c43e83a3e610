------------------------------ MODULE InitGen ------------------------------
(* Histories of InitMachine: all short ones and all permutations of the five *)
(* curves exhaustively, long mixed ones at random.                           *)
EXTENDS InitMachine, TLC, Json
CONSTANTS Mode, Depth           \* "short", "perm", "random"
VARIABLE hist
Kinds == {"fields", "params", "pp"}
Exprs == {"fr", "fq", "tower", "g1", "g2", "pair", "store"}
FieldExprs == {"fr", "fq", "tower"}
Init == IInit /\ hist = <<>>
Step(h) == hist' = Append(hist, h)
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Inits == {h[2] : h \in {hist[i] : i \in 1..Len(hist)}}
Short == \E c \in Curves : InitParams(c) /\ Step(<<"pp", c>>)
Perm == \E c \in Curves \ Inits : InitParams(c) /\ Step(<<"pp", c>>)
Random == \E z \in R({1, 2, 3, 4, 5, 6}) :
  CASE z = 1 -> \E c \in R(Curves) : InitFields(c) /\ Step(<<"fields", c>>)
    [] z \in {2, 3} -> \E c \in R(Curves), k \in R({"params", "pp"}) : InitParams(c) /\ Step(<<k, c>>)
    [] z \in {4, 5} -> IF \E c \in Curves : Ready(c)
                       THEN \E c \in R({x \in Curves : Ready(x)}), e \in R(Exprs) : Hold(c, e) /\ Step(<<"hold", c, e>>)
                       ELSE \E c \in R(Curves) : InitParams(c) /\ Step(<<"pp", c>>)
    [] OTHER -> IF \E c \in Curves : FieldsReady(c)
                THEN \E c \in R({x \in Curves : FieldsReady(x)}), e \in R(FieldExprs) : HoldF(c, e) /\ Step(<<"hold", c, e>>)
                ELSE \E c \in R(Curves) : InitFields(c) /\ Step(<<"fields", c>>)
Next == Len(hist) < Depth /\ IF Mode = "short" THEN Short ELSE IF Mode = "perm" THEN Perm ELSE Random
Done == Len(hist) = Depth /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<cell, held, hist>>
NextOrDone == Next \/ Done
=============================================================================
