----------------------------- MODULE ConfModel -----------------------------
(* Builds with a deviation are refused: a build of a computation of three    *)
(* steps over two values either repeats the first one or gets stuck.         *)
EXTENDS ConfMachine
VARIABLE got      \* build -> the values it found
Init == CInit /\ got = <<>>
Next == \/ \E b \in 1..3 : b = Len(got) + 1 /\ StartBuild(b) /\ got' = Append(got, <<>>)
        \/ \E v \in 0..1 : (build = 1 => pos < 3) /\ Value(v) /\ got' = [got EXCEPT ![build] = Append(@, v)]
        \/ (build > 0 /\ (build = 1 => pos = 3)) /\ EndBuild /\ UNCHANGED got
        \/ Len(got) = 3 /\ build = 0 /\ UNCHANGED <<cvars, got>>
Agree == \A a, b \in 1..Len(got) : \A i \in 1..Len(got[a]) : i <= Len(got[b]) => got[a][i] = got[b][i]
Whole == \A a \in 1..Len(got) : a # build => Len(got[a]) = Len(table)
=============================================================================
