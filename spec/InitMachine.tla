---------------------------- MODULE InitMachine ----------------------------
(***************************************************************************)
(* A program that initializes parameter sets and computes with them.  The  *)
(* parameters are blocks of static storage: the blocks of a curve's fields *)
(* and the blocks of its groups.  MNT4 and MNT6 share storage: the scalar  *)
(* field of each is the base field of the other.  An initialization writes *)
(* every block of its curve; what it writes depends on the block only, so  *)
(* no history of initializations can be told from a shorter one.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Curves == {"alt_bn128", "bls12_381", "edwards", "mnt4", "mnt6"}
Own(c) == {<<c, "q">>, <<c, "r">>, <<c, "tower">>, <<c, "groups">>}
\* the storage a block lives in
Cell(b) == IF b = <<"mnt6", "q">> THEN <<"mnt4", "r">> ELSE IF b = <<"mnt6", "r">> THEN <<"mnt4", "q">> ELSE b
FieldCells(c) == {Cell(b) : b \in {<<c, "q">>, <<c, "r">>, <<c, "tower">>}}
Cells(c) == {Cell(b) : b \in Own(c)}
AllCells == UNION {Cells(c) : c \in Curves}

VARIABLES cell, held            \* contents of storage; values the program holds
ivars == <<cell, held>>
Unset == <<"unset", "unset">>
IInit == cell = [x \in AllCells |-> Unset] /\ held = <<>>
\* the content that the block's definition prescribes
Right(x) == x
Write(S) == cell' = [x \in AllCells |-> IF x \in S THEN Right(x) ELSE cell[x]]
InitFields(c) == Write(FieldCells(c)) /\ UNCHANGED held
InitParams(c) == Write(Cells(c)) /\ UNCHANGED held
FieldsReady(c) == \A x \in FieldCells(c) : cell[x] # Unset
Ready(c) == \A x \in Cells(c) : cell[x] # Unset
\* what can be observed of a curve is a function of its cells
View(c) == [x \in Cells(c) |-> cell[x]]
Hold(c, e) == Ready(c) /\ held' = Append(held, [c |-> c, e |-> e, v |-> View(c)]) /\ UNCHANGED cell
HoldF(c, e) == FieldsReady(c) /\ held' = Append(held, [c |-> c, e |-> e, v |-> [x \in FieldCells(c) |-> cell[x]]]) /\ UNCHANGED cell
Watch == UNCHANGED ivars

\* initialization is idempotent, order does not matter and held values stay
\* what they were
Same == /\ \A c \in Curves : Ready(c) => \A x \in Cells(c) : cell[x] = Right(x)
        /\ \A i \in 1..Len(held) : \A x \in DOMAIN held[i].v : held[i].v[x] = Right(x)
=============================================================================
