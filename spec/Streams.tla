------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* A byte stream carrying serialized values: a queue of items not yet read *)
(* with the extent of each.  Reading must return the oldest unread value   *)
(* and stop exactly behind it, whatever was written before and after it.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES queue,              \* unread items [t |-> type name, v |-> value, end |-> offset]
          wpos,               \* bytes written
          rpos                \* bytes consumed
SInit == queue = <<>> /\ wpos = 0 /\ rpos = 0

\* n bytes were appended for value v
Write(t, v, n) == /\ n >= 0
                  /\ queue' = Append(queue, [t |-> t, v |-> v, end |-> wpos + n])
                  /\ wpos' = wpos + n
                  /\ UNCHANGED rpos
\* separators written and consumed by the caller
Sep(n) == /\ wpos' = wpos + n
          /\ queue' = Append(queue, [t |-> "sep", v |-> <<>>, end |-> wpos + n])
          /\ UNCHANGED rpos
SkipSep(p) == /\ queue # <<>> /\ queue[1].t = "sep"
              /\ p = queue[1].end
              /\ queue' = Tail(queue) /\ rpos' = p /\ UNCHANGED wpos
Read(t, v, p) == /\ queue # <<>>
                 /\ queue[1].t = t /\ queue[1].v = v
                 /\ p = queue[1].end
                 /\ queue' = Tail(queue) /\ rpos' = p /\ UNCHANGED wpos
Reset == queue' = <<>> /\ wpos' = 0 /\ rpos' = 0
\* what the positions mean
SInv == /\ rpos <= wpos
        /\ \A i \in 1..Len(queue) : queue[i].end \in rpos..wpos
        /\ \A i, j \in 1..Len(queue) : i < j => queue[i].end <= queue[j].end
=============================================================================
