------------------------------- MODULE Query --------------------------------
(* Query options on an entity collection: $filter, $orderby, paging with    *)
(* $top, $skip, a provider-enforced page size and skip tokens, $select and  *)
(* $expand, and the size of the collection.                                 *)
(* A table is a sequence of rows; row r is the context r of the expression  *)
(* environment and has a key (sequence of integers, compared in order).     *)
EXTENDS Expr

LESS(op, a, b) == Relation(op, a, b).a = 1

\* ordering of two values of one expression: null first
OrdCmp(a, b) ==         \* -1, 0, 1
  IF a.n \/ b.n THEN (IF a.n = b.n THEN 0 ELSE IF a.n THEN -1 ELSE 1)
  ELSE IF a.t \in NumTypes \cup {"Boolean"}
       THEN (IF a.a * b.d < b.a * a.d THEN -1 ELSE IF a.a * b.d = b.a * a.d THEN 0 ELSE 1)
  ELSE IF a.s = b.s THEN 0 ELSE IF SeqLt(a.s, b.s) THEN -1 ELSE 1
OrdOK(v) == ~v.u /\ ~v.x /\ v.t \in Simple

FilterVal(E, f, r) == IF f = <<>> THEN Bool(TRUE) ELSE Eval(E, f, r, 0)
\* every row evaluated, once: [f |-> filter value, o |-> order values, k |-> key]
RowEval(E, q, base) == [r \in base |-> [f |-> FilterVal(E, q.f, r), o |-> [i \in 1..Len(q.o) |-> Eval(E, q.o[i].e, r, 0)], k |-> E.key[r]]]
\* is the outcome specified?
Errors(RE) == \E r \in DOMAIN RE : RE[r].f.t # "Boolean"
Undefined(RE, q) == \/ \E r \in DOMAIN RE : RE[r].f.t = "UNK" \/ (RE[r].f.t = "Boolean" /\ RE[r].f.u)
                    \/ \E r \in DOMAIN RE : \E i \in 1..Len(q.o) : ~OrdOK(RE[r].o[i])
Passed(RE) == {r \in DOMAIN RE : RE[r].f.t = "Boolean" /\ ~RE[r].f.n /\ RE[r].f.a = 1}
\* -1 / 0 / 1 by the order rules alone
RECURSIVE RuleCmp(_, _, _, _, _)
RuleCmp(RE, q, a, b, i) ==
  IF i > Len(q.o) THEN 0
  ELSE LET c == OrdCmp(RE[a].o[i], RE[b].o[i]) IN
       IF c # 0 THEN (IF q.o[i].d < 0 THEN -c ELSE c) ELSE RuleCmp(RE, q, a, b, i + 1)
\* the total order used for paging: ties by key
Before(RE, q, a, b) == LET c == RuleCmp(RE, q, a, b, 1) IN IF c # 0 THEN c < 0 ELSE SeqLt(RE[a].k, RE[b].k)
RECURSIVE Sorted(_, _, _)
Sorted(RE, q, SS) == IF SS = {} THEN <<>>
   ELSE LET m == CHOOSE a \in SS : \A b \in SS \ {a} : Before(RE, q, a, b) IN <<m>> \o Sorted(RE, q, SS \ {m})

Min(a, b) == IF a < b THEN a ELSE b
Slice(s, skip, top) == SubSeq(s, Min(skip, Len(s)) + 1, IF top < 0 THEN Len(s) ELSE Min(Len(s), skip + top))
RECURSIVE Concat(_)
Concat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Concat(Tail(ps))
\* pages obtained by following skip tokens: full pages, then a last one that is not empty unless nothing is left
TokenPages(s, ps, m) == /\ Concat(ps) = s
                        /\ ps # <<>>
                        /\ m > 0 => \A i \in 1..Len(ps) : IF i < Len(ps) THEN Len(ps[i]) = m ELSE Len(ps[i]) <= m
                        /\ Len(ps) > 1 => Len(ps[Len(ps)]) > 0
                        /\ m <= 0 => Len(ps) = 1
\* pages obtained by advancing the collection, page size min(top, maximum); iteration ends with empty pages
PageSize(q) == IF q.top < 0 THEN q.max ELSE IF q.max <= 0 THEN q.top ELSE Min(q.top, q.max)
AdvancePages(s, ps, m) == /\ Concat(ps) = s
                          /\ m > 0 => \A i \in 1..Len(ps) : Len(ps[i]) <= m /\ ((i < Len(ps) /\ ps[i+1] # <<>>) => Len(ps[i]) = m)

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
IsOrdered(RE, q, s) == \A i \in 1..(Len(s) - 1) : RuleCmp(RE, q, s[i], s[i+1], 1) <= 0

\* q: [f, o, mode, top (-1 none), skip, max (0 none)]; res: [err, pages, len, keys]
QueryOK(E, q, base, res) ==
  LET RE == RowEval(E, q, base) IN
  IF Undefined(RE, q) THEN TRUE
  ELSE IF Errors(RE) THEN res.err # ""
  ELSE IF res.err # "" THEN FALSE
  ELSE LET P == Passed(RE) full == Sorted(RE, q, P) IN
    /\ res.len = Cardinality(P)
    /\ res.has = [r \in 1..Len(res.has) |-> IF r \in P THEN 1 ELSE 0]
    /\ CASE q.mode = "values" -> LET s == res.pages[1] IN Distinct(s) /\ {s[i] : i \in 1..Len(s)} = P /\ IsOrdered(RE, q, s)
         [] q.mode = "pages" -> TokenPages(Slice(full, q.skip, q.top), res.pages, q.max)
         [] q.mode = "tokskip" ->       \* one page, then the rest from its token with an additional skip (q.top)
              LET s1 == Slice(full, q.skip, -1) IN
              IF Len(s1) <= q.max THEN res.pages = <<s1>>
              ELSE res.pages = <<Slice(s1, 0, q.max), Slice(s1, q.max + q.top, -1)>>
         [] OTHER -> AdvancePages(Slice(full, q.skip, -1), res.pages, PageSize(q))

\* select: a set of names, "*" for all data properties, or nothing selected explicitly (all); keys keep their value
SelOK(E, sel, r, vs) ==
  \A i \in 1..Len(vs) : LET nm == vs[i].n o == vs[i].v
                            inSel == sel = <<>> \/ nm \in {sel[j] : j \in 1..Len(sel)} \/ "*" \in {sel[j] : j \in 1..Len(sel)} IN
    /\ vs[i].sel = (IF inSel THEN 1 ELSE 0)
    /\ (inSel \/ vs[i].key = 1) => ValueOK(Look(E.ctx[r].p, nm), o)
=============================================================================
