------------------------------ MODULE HashTest ------------------------------
(* The accelerated digest is the SHA-512 of the pure definition. *)
EXTENDS Hash, IOUtils
VARIABLE n
Msg == [i \in 1..n |-> (i * i + 7 * n) % 256]
Init == n \in (IF IOEnv.VERIF_TIER = "thorough" THEN {0, 3, 16, 111, 112, 128, 200} ELSE {16})
Next == UNCHANGED n
Agree == Digest(Msg) = PSha512(Msg)
=============================================================================
