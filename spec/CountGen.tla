------------------------------ MODULE CountGen ------------------------------
(* Histories of CountMachine, written out as programs; the totals are       *)
(* checked against a record of all the spans.                               *)
EXTENDS CountMachine, TLC, Json
CONSTANTS Depth0, Record
VARIABLES hist, spans
Kinds == IF Record THEN 0..11 ELSE {0, 1}
Names == {"alpha", "alpha beta", "100%d", "a block whose name is longer than the column of the report", "a block whose name is longer than the column of the reports"}
Init == CInit([k \in Kinds |-> 0]) /\ hist = <<>> /\ spans = <<>>
R(S) == IF Record THEN {RandomElement(S)} ELSE S
Step(h) == hist' = Append(hist, h)
Flag(b) == IF b THEN 1 ELSE 0
Ops == {"enter", "enter2", "leave", "leave2", "work", "work2", "work3", "clear", "count", "print", "report", "report2"}
Ops0 == {"enter", "leave", "work", "clear", "print"}
Same == UNCHANGED spans
Next == Len(hist) < Depth0 /\ \E op \in R(IF Record THEN Ops ELSE Ops0) :
  CASE op \in {"enter", "enter2"} -> \E n \in R(IF Record THEN Names ELSE {"alpha"}) : Enter(n) /\ Step(<<"enter", n>>) /\ Same
    [] op \in {"leave", "leave2"} ->
         IF CanLeave THEN \E d \in (IF nocount THEN {cnt} ELSE {Minus(cnt, ent[Top.n])}) :
                            /\ Leave(d) /\ Step(<<"leave", Top.n>>)
                            /\ spans' = IF nocount THEN spans ELSE Append(spans, <<Top.n, d>>)
         ELSE IF Len(open) = 0 THEN \E n \in R(Names) : Enter(n) /\ Step(<<"enter", n>>) /\ Same
         ELSE IF Top.c # nocount THEN SetCount(Top.c) /\ Step(<<"count", Flag(Top.c)>>) /\ Same
         ELSE SetPrint(Top.p) /\ Step(<<"print", Flag(Top.p)>>) /\ Same
    [] op \in {"work", "work2", "work3"} -> \E k \in R(Kinds), m \in R(IF Record THEN 1..9 ELSE {2}) :
         Work([cnt EXCEPT ![k] = @ + m]) /\ Step(<<"work", k, m>>) /\ Same
    [] op = "clear" -> Clear /\ Step(<<"clear">>) /\ spans' = <<>>
    [] op = "count" -> \E b \in R(BOOLEAN) : SetCount(b) /\ Step(<<"count", Flag(b)>>) /\ Same
    [] op = "print" -> \E b \in R(BOOLEAN) : SetPrint(b) /\ Step(<<"print", Flag(b)>>) /\ Same
    [] OTHER -> \E b \in R(BOOLEAN) : Look /\ Step(<<"report", Flag(b)>>) /\ Same
Done == Len(hist) = Depth0 /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<cvars, hist, spans>>
NextOrDone == Next \/ Done
Of(n) == SelectSeq(spans, LAMBDA x : x[1] = n)
Sum(s, k) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i][2][k] IN F[Len(s)]
SumOfSpans == \A n \in DOMAIN tot : inv[n] = Len(Of(n)) /\ \A k \in DOMAIN cnt : tot[n][k] = Sum(Of(n), k)
=============================================================================
