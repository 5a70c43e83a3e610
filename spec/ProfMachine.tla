---------------------------- MODULE ProfMachine ----------------------------
(***************************************************************************)
(* Profiling of named blocks.  A program enters and leaves blocks in a     *)
(* well-nested way, may clear the tables, and may switch recording         *)
(* (counters) and printing (info) off and on, as long as a block is left   *)
(* under the switches it was entered with.  Time is a clock that the       *)
(* environment advances.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES now, start, mark,     \* clock, start of profiling, last printed time
          stack,                \* open blocks, innermost last
          cnt, last, cum, ent,  \* per name: times left, last and total time, last entry
          nocount, noprint,     \* the two switches
          ind                   \* indentation of the output
pvars == <<now, start, mark, stack, cnt, last, cum, ent, nocount, noprint, ind>>
None == <<>>
PInit == /\ now = 0 /\ start = 0 /\ mark = 0 /\ stack = None /\ ind = 0
         /\ cnt = None /\ last = None /\ cum = None /\ ent = None
         /\ nocount = FALSE /\ noprint = FALSE
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE 0
Put(f, n, v) == [x \in DOMAIN f \union {n} |-> IF x = n THEN v ELSE f[x]]
Top == stack[Len(stack)]
Tick(k) == now' = now + k
Recording == ~nocount
Printing == ~nocount /\ ~noprint

\* a line of output: indentation, kind, name, time printed, time since start
Line(i, k, n, t) == <<i, k, n, t, now' - start>>

Enter(n, indent) ==
  /\ stack' = Append(stack, [n |-> n, i |-> indent, c |-> nocount, p |-> noprint, t |-> now'])
  /\ ent' = IF Recording THEN Put(ent, n, now') ELSE ent
  /\ ind' = IF Printing /\ indent THEN ind + 1 ELSE ind
  /\ UNCHANGED <<start, mark, cnt, last, cum, nocount, noprint>>
EnterOut(n) == IF Printing THEN <<Line(2 * ind, "enter", n, 0)>> ELSE <<>>

CanLeave == Len(stack) > 0 /\ Top.c = nocount /\ Top.p = noprint
\* the time of a block that is entered again inside itself may be counted from
\* the inner or from the outer entry
Spans(n) == {now' - ent[n], now' - Top.t}
Leave(d) ==
  /\ CanLeave
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ IF Recording
     THEN /\ d \in Spans(Top.n)
          /\ cnt' = Put(cnt, Top.n, Get(cnt, Top.n) + 1) /\ last' = Put(last, Top.n, d) /\ cum' = Put(cum, Top.n, Get(cum, Top.n) + d)
     ELSE UNCHANGED <<cnt, last, cum>>
  /\ ind' = IF Printing /\ Top.i THEN ind - 1 ELSE ind
  /\ UNCHANGED <<start, mark, ent, nocount, noprint>>
LeaveOut(d) == IF Printing THEN <<Line(2 * ind', "leave", Top.n, d)>> ELSE <<>>

Clear == cnt' = None /\ last' = None /\ cum' = None /\ UNCHANGED <<start, mark, stack, ent, nocount, noprint, ind>>
SetCount(b) == nocount' = b /\ UNCHANGED <<start, mark, stack, cnt, last, cum, ent, noprint, ind>>
SetPrint(b) == noprint' = b /\ UNCHANGED <<start, mark, stack, cnt, last, cum, ent, nocount, ind>>
\* printing the time since the last such print, and starting over
PrintTime == mark' = (IF noprint THEN mark ELSE now') /\ UNCHANGED <<start, stack, cnt, last, cum, ent, nocount, noprint, ind>>
PrintTimeOut(m) == IF noprint THEN <<>> ELSE <<Line(0, "time", m, now' - mark)>>
Start == start' = now' /\ mark' = now' /\ UNCHANGED <<stack, cnt, last, cum, ent, nocount, noprint, ind>>
Look == UNCHANGED <<start, mark, stack, cnt, last, cum, ent, nocount, noprint, ind>>

Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}
\* What the report of accumulated times says of a block, times in milliseconds
\* with five decimals (a clock tick is a tenth of one): the total, what of it
\* falls to one of f units of work, the number of invocations, and the same two
\* per invocation.
Ms(v, d, r) == LET ms == v \div (10 * d) frac == ((v % (10 * d)) * 10000) \div d
               IN (r[1] - ms) * 100000 + r[2] - frac \in {0, 1}
Reported(n, f, r) == /\ Ms(cum[n], 1, r[1]) /\ r[2] = f /\ Ms(cum[n], f, r[3]) /\ r[4] = cnt[n]
                     /\ Ms(cum[n], cnt[n], r[5]) /\ r[6] = f /\ Ms(cum[n], f * cnt[n], r[7])

Depth == Cardinality({i \in 1..Len(stack) : ~stack[i].c /\ ~stack[i].p /\ stack[i].i})
IndentIsDepth == ind = Depth
SameTables == DOMAIN cnt = DOMAIN last /\ DOMAIN cum = DOMAIN last
Sane == \A n \in DOMAIN cnt : cnt[n] >= 1 /\ cum[n] >= last[n] /\ (cnt[n] = 1 => cum[n] = last[n])
EntriesKnown == \A i \in 1..Len(stack) : ~stack[i].c => (stack[i].n \in DOMAIN ent /\ ent[stack[i].n] >= stack[i].t)
=============================================================================
