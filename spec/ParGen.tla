------------------------------- MODULE ParGen -------------------------------
(***************************************************************************)
(* Chunked parallel evaluation: a list of len terms is cut into chunks,    *)
(* the workers of a team take chunks in any order and any distribution,    *)
(* read the terms, and store one partial result per chunk; after the join  *)
(* one worker combines the partial results.  Term i is 2^i, so that the    *)
(* total tells which terms went in how often.  The accesses obey           *)
(* ParMachine: in no interleaving is there a race, no worker is ever       *)
(* stuck, and the total is the same.                                       *)
(* The order in which the workers moved is the schedule the library is     *)
(* made to follow.                                                         *)
(***************************************************************************)
EXTENDS ParMachine, Integers, Json
CONSTANTS Lens, ChunkCounts, Teams, Record, Shared   \* Shared: a mutant, one accumulator for all
VARIABLES len, ch, tm, todo, job, acc, part, total, hist
vars == <<mvars, len, ch, tm, todo, job, acc, part, total, hist>>
Idle == <<-1, 0>>
Begins(c) == c * (len \div ch)
Ends(c) == IF c = ch - 1 THEN len ELSE (c + 1) * (len \div ch)
R1(S) == IF Record THEN {RandomElement(S)} ELSE S
Init == /\ len \in Lens /\ ch \in {c \in ChunkCounts : c <= len} /\ tm \in Teams
        /\ MInit /\ todo = {} /\ job = None /\ acc = None /\ part = None /\ total = -1 /\ hist = <<>>
Setup == UNCHANGED <<len, ch, tm>>
Start == total = -1 /\ n = 0 /\ Fork(tm) /\ todo' = 0..(ch - 1) /\ job' = [t \in Team(tm) |-> Idle]
         /\ acc' = [t \in Team(tm) |-> 0] /\ part' = [c \in 0..(ch - 1) |-> 0] /\ total' = -2 /\ UNCHANGED hist /\ Setup
Moved(t) == hist' = IF Record THEN Append(hist, t) ELSE hist
Take(t) == \E c \in R1(todo) : /\ todo' = todo \ {c} /\ job' = [job EXCEPT ![t] = <<c, Begins(c)>>]
           /\ acc' = [acc EXCEPT ![t] = 0] /\ UNCHANGED <<mvars, part, total>> /\ Moved(t) /\ Setup
Term(i) == 100 + i
Cell(c) == IF Shared THEN 1000 ELSE 1000 + c
Read(t) == LET c == job[t][1] i == job[t][2] IN
           /\ Access(t, {Term(i)}, {}) /\ acc' = [acc EXCEPT ![t] = @ + 2^i] /\ job' = [job EXCEPT ![t] = <<c, i + 1>>]
           /\ UNCHANGED <<todo, part, total>> /\ Moved(t) /\ Setup
Store(t) == LET c == job[t][1] IN
            /\ Access(t, {}, {Cell(c)}) /\ part' = [part EXCEPT ![c] = acc[t]] /\ job' = [job EXCEPT ![t] = Idle]
            /\ UNCHANGED <<todo, acc, total>> /\ Moved(t) /\ Setup
Work(t) == IF job[t] = Idle THEN todo # {} /\ Take(t)
           ELSE IF job[t][2] < Ends(job[t][1]) THEN Read(t) ELSE Store(t)
Busy == {t \in Team(n) : job[t] # Idle \/ todo # {}}
RECURSIVE SumTo(_)
SumTo(c) == IF c < 0 THEN 0 ELSE part[c] + SumTo(c - 1)
Combine == n > 0 /\ Busy = {} /\ Join /\ total' = SumTo(ch - 1) /\ UNCHANGED <<todo, job, acc, part, hist>> /\ Setup
Next == Start \/ (IF total = -2 /\ Busy # {} THEN \E t \in R1(Busy) : Work(t) ELSE FALSE) \/ (total = -2 /\ Combine)
Prog == << <<"team", len, ch, tm>> >> \o [i \in 1..Len(hist) |-> <<"w", hist[i]>>]
Done == total >= 0 /\ (IF Record THEN PrintT("@@" \o ToJson(Prog)) ELSE TRUE) /\ UNCHANGED vars
NextOrDone == Next \/ Done
\* every term exactly once, whatever the interleaving
Total == total < 0 \/ total = 2^len - 1
OneWriter == n > 0 => \A x \in DOMAIN W : Cardinality({u \in Team(n) : W[x][u] > 0}) <= 1
=============================================================================
