---------------------------- MODULE ConfMachine ----------------------------
(***************************************************************************)
(* One computation, many builds.  A computation is a sequence of steps,    *)
(* each with an observable value.  The first build that reaches a step     *)
(* fixes its value; every build that reaches it afterwards has to find the *)
(* same, and every build goes through all the steps.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLES table,   \* the values, step by step
          build,   \* the build under way, 0 for none
          pos      \* steps it has done
cvars == <<table, build, pos>>
CInit == table = <<>> /\ build = 0 /\ pos = 0
StartBuild(b) == build = 0 /\ b > 0 /\ build' = b /\ pos' = 0 /\ UNCHANGED table
Value(v) == /\ build > 0 /\ pos' = pos + 1 /\ UNCHANGED build
            /\ IF pos < Len(table) THEN table[pos + 1] = v /\ UNCHANGED table
               ELSE build = 1 /\ table' = Append(table, v)
EndBuild == build > 0 /\ pos = Len(table) /\ build' = 0 /\ pos' = 0 /\ UNCHANGED table
\* all builds agree on the steps they share
Prefix == pos <= Len(table)
=============================================================================
