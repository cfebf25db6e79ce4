------------------------------- MODULE MCPage -------------------------------
(* Every paging configuration of small tables: the page sequence a provider *)
(* must produce (token paging) covers exactly the requested slice; emitted  *)
(* to be replayed on the real collections.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN
VARIABLES n, top, skip, max
vars == <<n, top, skip, max>>
Init == n \in 0..MaxN /\ top \in -1..(MaxN + 1) /\ skip \in 0..(MaxN + 1) /\ max \in 0..MaxN
Next == FALSE /\ UNCHANGED vars
Min(a, b) == IF a < b THEN a ELSE b
\* the protocol: position, remaining count; one page, then the token for the next position if something is left
RECURSIVE Pages(_, _)
Pages(pos, rem) == LET left == IF n - pos < 0 THEN 0 ELSE n - pos
                       want == IF rem < 0 THEN left ELSE Min(rem, left)
                       take == IF max > 0 THEN Min(max, want) ELSE want
                       page == [i \in 1..take |-> pos + i] IN
                   IF take < want THEN <<page>> \o Pages(pos + take, IF rem < 0 THEN -1 ELSE rem - take) ELSE <<page>>
RECURSIVE Concat(_)
Concat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Concat(Tail(ps))
Inv == LET ps == Pages(skip, top) s == Concat(ps) IN
       /\ s = [i \in 1..Len(s) |-> skip + i]
       /\ Len(s) = (LET l == IF n < skip THEN 0 ELSE n - skip IN IF top < 0 THEN l ELSE Min(l, top))
       /\ Len(ps) > 1 => ps[Len(ps)] # <<>>
Emit == PrintT(ToJson([n |-> n, top |-> top, skip |-> skip, max |-> max]))
=============================================================================
