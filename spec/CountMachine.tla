---------------------------- MODULE CountMachine ----------------------------
(***************************************************************************)
(* Counting of operations.  Every counter stands for one kind of operation *)
(* on one type and is advanced by one each time such an operation is done. *)
(* A block reports how far the counters went between entering and leaving, *)
(* and adds that to its total; a report gives averages per invocation.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cnt,        \* counter -> value
          open,       \* open blocks: [n |-> name, at |-> counters then, c, p |-> the switches then]
          ent,        \* name -> counters at the last entry
          tot, inv,   \* name -> accumulated counts, name -> times left
          nocount, noprint
cvars == <<cnt, open, ent, tot, inv, nocount, noprint>>
None == <<>>
CInit(c) == cnt = c /\ open = None /\ ent = None /\ tot = None /\ inv = None /\ nocount = FALSE /\ noprint = FALSE
Put(f, n, v) == [x \in DOMAIN f \union {n} |-> IF x = n THEN v ELSE f[x]]
Plus(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Minus(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Top == open[Len(open)]
Recording == ~nocount
Printing == ~nocount /\ ~noprint

\* an operation of kind k; kinds in free may be counted along with it
Does(d, k, free) == /\ \A x \in DOMAIN d : x # k /\ x \notin free => d[x] = 0
                    /\ k \in DOMAIN d => d[k] = 1
                    /\ \A x \in free : d[x] \in {0, 1}
Op(c, k, free) == /\ cnt' = c /\ Does(Minus(c, cnt), k, free) /\ UNCHANGED <<open, ent, tot, inv, nocount, noprint>>
\* some work, known by what the counters say
Work(c) == cnt' = c /\ (\A k \in DOMAIN c : c[k] >= cnt[k]) /\ UNCHANGED <<open, ent, tot, inv, nocount, noprint>>

Enter(n) == /\ open' = Append(open, [n |-> n, at |-> cnt, c |-> nocount, p |-> noprint])
            /\ ent' = IF Recording THEN Put(ent, n, cnt) ELSE ent
            /\ UNCHANGED <<cnt, tot, inv, nocount, noprint>>
CanLeave == Len(open) > 0 /\ Top.c = nocount /\ Top.p = noprint
\* a block entered again inside itself may be counted from the inner or from the outer entry
Spans(n) == {Minus(cnt, ent[n]), Minus(cnt, Top.at)}
Leave(d) == /\ CanLeave
            /\ open' = SubSeq(open, 1, Len(open) - 1)
            /\ IF Recording
               THEN /\ d \in Spans(Top.n)
                    /\ inv' = Put(inv, Top.n, IF Top.n \in DOMAIN inv THEN inv[Top.n] + 1 ELSE 1)
                    /\ tot' = Put(tot, Top.n, IF Top.n \in DOMAIN tot THEN Plus(tot[Top.n], d) ELSE d)
               ELSE UNCHANGED <<inv, tot>>
            /\ UNCHANGED <<cnt, ent, nocount, noprint>>
Clear == tot' = None /\ inv' = None /\ UNCHANGED <<cnt, open, ent, nocount, noprint>>
SetCount(b) == nocount' = b /\ UNCHANGED <<cnt, open, ent, tot, inv, noprint>>
SetPrint(b) == noprint' = b /\ UNCHANGED <<cnt, open, ent, tot, inv, nocount>>
Look == UNCHANGED cvars
\* a rounded to the nearest whole is r, where a = t / i
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Rounds(t, i, r) == 2 * Abs(r * i - t) <= i
Sane == DOMAIN tot = DOMAIN inv /\ \A n \in DOMAIN inv : inv[n] >= 1 /\ \A k \in DOMAIN cnt : tot[n][k] >= 0
\* what is accumulated is never more than what was done, for blocks that do not nest in themselves
=============================================================================
