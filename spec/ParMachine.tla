----------------------------- MODULE ParMachine -----------------------------
(***************************************************************************)
(* What a team of workers may do to shared memory.  Every worker has a     *)
(* vector clock; a location may be touched only by a worker that knows of  *)
(* every conflicting earlier access.  Locks and barriers pass knowledge    *)
(* on; nothing else does.  An access that is not ordered after a           *)
(* conflicting one is a data race: no action of this machine takes it.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES n,       \* size of the team, 0 outside parallel regions
          C,       \* worker -> its vector clock
          L,       \* lock -> clock of its last release
          BC,      \* knowledge gathered at the barrier
          W, R     \* location -> worker -> time of its last write, read
mvars == <<n, C, L, BC, W, R>>
None == << >>
MInit == n = 0 /\ C = None /\ L = None /\ BC = None /\ W = None /\ R = None
Team(k) == 0..(k - 1)
Max(a, b) == IF a > b THEN a ELSE b
Join2(f, g) == [u \in DOMAIN f |-> Max(f[u], g[u])]
Fork(k) == n = 0 /\ k >= 1 /\ n' = k /\ C' = [t \in Team(k) |-> [u \in Team(k) |-> IF u = t THEN 1 ELSE 0]]
           /\ L' = None /\ BC' = [u \in Team(k) |-> 0] /\ W' = None /\ R' = None
Join == n > 0 /\ n' = 0 /\ C' = None /\ L' = None /\ BC' = None /\ W' = None /\ R' = None
\* every earlier access in F to x is known to t
Known(F, x, t) == IF x \in DOMAIN F THEN \A u \in DOMAIN F[x] : F[x][u] <= C[t][u] ELSE TRUE
Mark(F, xs, t) == [x \in DOMAIN F \cup xs |->
                     IF x \notin xs THEN F[x]
                     ELSE [u \in Team(n) |-> IF u = t THEN C[t][t] ELSE IF x \in DOMAIN F THEN F[x][u] ELSE 0]]
NoRace(t, rs, ws) == /\ \A x \in rs : Known(W, x, t)
                     /\ \A x \in ws : Known(W, x, t) /\ Known(R, x, t)
Access(t, rs, ws) == /\ n > 0 /\ t \in Team(n) /\ NoRace(t, rs, ws)
                     /\ R' = Mark(R, rs, t) /\ W' = Mark(W, ws, t) /\ UNCHANGED <<n, C, L, BC>>
Tick(t, c) == [c EXCEPT ![t][t] = @ + 1]
Acquire(t, k) == /\ n > 0 /\ C' = IF k \in DOMAIN L THEN [C EXCEPT ![t] = Join2(@, L[k])] ELSE C
                 /\ UNCHANGED <<n, L, BC, W, R>>
Release(t, k) == /\ n > 0 /\ L' = [x \in DOMAIN L \cup {k} |-> IF x = k THEN C[t] ELSE L[x]]
                 /\ C' = Tick(t, C) /\ UNCHANGED <<n, BC, W, R>>
Arrive(t) == n > 0 /\ BC' = Join2(BC, C[t]) /\ C' = Tick(t, C) /\ UNCHANGED <<n, L, W, R>>
Depart(t) == n > 0 /\ C' = [C EXCEPT ![t] = Join2(@, BC)] /\ UNCHANGED <<n, L, BC, W, R>>
=============================================================================
