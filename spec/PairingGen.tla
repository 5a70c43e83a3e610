----------------------------- MODULE PairingGen -----------------------------
(***************************************************************************)
(* PairingMachine over a tiny group order, with the history of actions.    *)
(* TLC checks the laws of the machine on all reachable states, and writes  *)
(* random behaviours out as programs for the real library.                 *)
(***************************************************************************)
EXTENDS PairingMachine, TLC, Json, Integers
CONSTANTS Depth, Record
VARIABLE hist
N == 2
Reg == 1..N
R5 == <<5>>
\* classes of scalars; the driver picks a scalar of the class (0 is the scalar zero;
\* 5: the opposite of the other operand, 6: the same point again, 7: a multiple of
\* it by a root of unity of small order, when there is one)
Class == 0..7
Scalar(v, d, c) == IF c = 5 THEN Neg(R5, v[3 - d]) ELSE IF c = 6 THEN v[3 - d] ELSE BInt(c)
Step(h) == hist' = IF Record THEN Append(hist, h) ELSE hist
Init == /\ p = [i \in Reg |-> ZeroS] /\ q = [i \in Reg |-> ZeroS] /\ f = [i \in Reg |-> ZeroS]
        /\ hist = <<>>
\* exhaustive exploration, or one random choice at a time when writing programs
PickC(n) == IF Record THEN {RandomElement({<<0, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<2, 6>>, <<3, 6>>, <<4, 7>>})[2]} ELSE Class
Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Ops == {"pre1", "pre2", "reload1", "reload2", "miller", "double", "quot", "prodquot", "mulf", "invf", "final"}
\* programs start by loading every register
Kind(n) == IF Record /\ n < 2 * N THEN {IF n % 2 = 0 THEN "pre1" ELSE "pre2"} ELSE Pick(Ops)
Dest(n) == IF Record /\ n < 2 * N THEN {1 + n \div 2} ELSE Pick(Reg)
Next == \E op \in Kind(Len(hist)), d \in Dest(Len(hist)) :
  /\ Record => Len(hist) < Depth
  /\ CASE op = "pre1" -> \E c \in PickC(Len(hist)) : Pre1(R5, d, Scalar(p, d, c)) /\ Step(<<op, d, c>>)
       [] op = "pre2" -> \E c \in PickC(Len(hist)) : Pre2(R5, d, Scalar(q, d, c)) /\ Step(<<op, d, c>>)
       [] op \in {"reload1", "reload2"} -> Reload /\ Step(<<op, d>>)
       [] op = "miller" -> \E i, j \in Pick(Reg) : Miller(R5, d, i, j) /\ Step(<<op, d, i, j>>)
       [] op = "double" -> \E i \in Pick(Reg), j \in Pick(Reg), k \in Pick(Reg), m \in Pick(Reg) : Double(R5, d, i, j, k, m) /\ Step(<<op, d, i, j, k, m>>)
       [] op = "quot" -> \E i \in Pick(Reg), j \in Pick(Reg), k \in Pick(Reg), m \in Pick(Reg) : Quot(R5, d, i, j, k, m) /\ Step(<<op, d, i, j, k, m>>)
       [] op = "prodquot" -> \E i \in Pick(Reg), j \in Pick(Reg), k \in Pick(Reg), m \in Pick(Reg), s \in Pick(Reg), t \in Pick(Reg) :
                                 ProdQuot(R5, d, i, j, k, m, s, t) /\ Step(<<op, d, i, j, k, m, s, t>>)
       [] op = "mulf" -> \E a \in Pick(Reg), b \in Pick(Reg) : MulF(R5, d, a, b) /\ Step(<<op, d, a, b>>)
       [] op = "invf" -> \E a \in Pick(Reg) : InvF(R5, d, a) /\ Step(<<op, d, a>>)
       [] op = "final" -> Still /\ Step(<<op, d>>)
Done == Record /\ Len(hist) = Depth /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<p, q, f, hist>>
NextOrDone == Next \/ Done
Spec == Init /\ [][Next]_<<p, q, f, hist>>

InZ(x) == BLt(x, R5)
TypeOK == \A i \in Reg : InZ(p[i]) /\ InZ(q[i]) /\ InZ(f[i])
\* laws every evaluation order must respect
Laws == \A i, j \in Reg : LET x == BMod(BMul(p[i], q[j]), R5) IN
        /\ BMod(BAdd(x, Neg(R5, x)), R5) = ZeroS
        /\ (p[i] = ZeroS \/ q[j] = ZeroS) => x = ZeroS
        /\ x = E1(R5, i, j)
=============================================================================
