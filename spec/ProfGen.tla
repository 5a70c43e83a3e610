------------------------------ MODULE ProfGen ------------------------------
(* Histories of ProfMachine: every short one, and long random ones; the      *)
(* accumulated time is checked against a record of all the spans.            *)
EXTENDS ProfMachine, TLC, Json
CONSTANTS Depth0, Record
VARIABLES hist, spans
Names == {"alpha", "beta", "a name with blanks that is longer than the column", "alpha beta", "50% (%d of %s) %n", "alphabet of a name that goes on and on, with some 0123456789 digits, for more than a hundred and twenty characters in the end"}
Init == PInit /\ hist = <<>> /\ spans = <<>>
R(S) == IF Record THEN {RandomElement(S)} ELSE S
Step(h) == hist' = Append(hist, h)
\* leaving is as likely as entering
Ops == {"enter", "enter2", "leave", "leave2", "leave3", "clear", "count", "print", "time", "start", "report", "indent"}
Ops0 == {"enter", "leave", "clear", "count", "print"}
Flag(b) == IF b THEN 1 ELSE 0
Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i][2] IN F[Len(s)]
Of(n) == SelectSeq(spans, LAMBDA x : x[1] = n)
Same == UNCHANGED spans
Next == Len(hist) < Depth0 /\ \E op \in R(IF Record THEN Ops ELSE Ops0), k \in R(IF Record THEN {0, 1, 7, 250, 10000} ELSE {1}) : Tick(k) /\
  CASE op \in {"enter", "enter2"} -> \E n \in R(IF Record THEN Names ELSE {"alpha", "beta"}), i \in R(IF op = "enter" /\ Record THEN {TRUE} ELSE BOOLEAN) :
                       Enter(n, i) /\ Step(<<"enter", k, n, Flag(i)>>) /\ Same
    [] op \in {"leave", "leave2", "leave3"} ->
         IF CanLeave THEN /\ \E d \in (IF nocount THEN {0} ELSE {now' - ent[Top.n]}) :
                               Leave(d) /\ spans' = (IF nocount THEN spans ELSE Append(spans, <<Top.n, d>>))
                          /\ Step(<<"leave", k, Top.n, Flag(Top.i)>>)
         \* the switches the block was entered with
         ELSE IF Len(stack) = 0 THEN \E n \in R(Names) : Enter(n, TRUE) /\ Step(<<"enter", k, n, 1>>) /\ Same
         ELSE IF Top.c # nocount THEN SetCount(Top.c) /\ Step(<<"count", k, Flag(Top.c)>>) /\ Same
         ELSE SetPrint(Top.p) /\ Step(<<"print", k, Flag(Top.p)>>) /\ Same
    [] op = "clear" -> Clear /\ Step(<<"clear", k>>) /\ spans' = <<>>
    [] op = "count" -> \E b \in R(BOOLEAN) : SetCount(b) /\ Step(<<"count", k, Flag(b)>>) /\ Same
    [] op = "print" -> \E b \in R(BOOLEAN) : SetPrint(b) /\ Step(<<"print", k, Flag(b)>>) /\ Same
    [] op = "time" -> PrintTime /\ Step(<<"time", k>>) /\ Same
    [] op = "start" -> Start /\ Step(<<"start", k>>) /\ Same
    [] OTHER -> Look /\ Step(<<op, k>>) /\ Same
Done == Len(hist) = Depth0 /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<pvars, hist, spans>>
NextOrDone == Next \/ Done
SumOfSpans == \A n \in DOMAIN cum : cum[n] = Sum(Of(n)) /\ cnt[n] = Len(Of(n)) /\ last[n] = Of(n)[Len(Of(n))][2]
=============================================================================
