------------------------------- MODULE T_Par -------------------------------
(* Recorded parallel regions: the accesses of the workers to what they      *)
(* share, what orders them, and the values that came out.                   *)
EXTENDS Params, GroupAlg, TraceBase, Integers
VARIABLES n, C, L, BC, W, R
PM == INSTANCE ParMachine
vars == <<st, l, n, C, L, BC, W, R>>
Init == TInit /\ PM!MInit
SetOf(s) == {s[i] : i \in 1..Len(s)}
TFork == Is("fork") /\ PM!Fork(E.n)
TJoin == Is("join") /\ PM!Join
TAcc == Is("acc") /\ PM!Access(E.t, SetOf(E.r), SetOf(E.w))
TLock == Is("lock") /\ PM!Acquire(E.t, E.c)
TUnlock == Is("unlock") /\ PM!Release(E.t, E.c)
TArrive == Is("arrive") /\ PM!Arrive(E.t)
TDepart == Is("depart") /\ PM!Depart(E.t)
M == B.m
All(v) == E.vs # <<>> /\ \A i \in 1..Len(E.vs) : E.vs[i].v = v
Quiet == n = 0 /\ UNCHANGED <<n, C, L, BC, W, R>>
TMsm == Is("msm") /\ Quiet /\ Len(E.ks) = Len(E.ps) /\ All(ZSum(M, E.ks, E.ps))
Scal(k) == IF Has(E, "coeff") THEN BMod(BMul(E.coeff, k), E.n) ELSE k
TFixed == Is("fixed") /\ Quiet /\ All([i \in 1..Len(E.ks) |-> ZMul(M, Scal(E.ks[i]), E.p)])
Next == TFork \/ TJoin \/ TAcc \/ TLock \/ TUnlock \/ TArrive \/ TDepart \/ TMsm \/ TFixed
        \/ (Finished /\ UNCHANGED <<n, C, L, BC, W, R>>)
=============================================================================
