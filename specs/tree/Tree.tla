-------------------------------- MODULE Tree --------------------------------
(* XML documents as trees, namespaces, and what may change when a tree is    *)
(* written and read again.  A node is [k, q, as, cs, t]: an element (k "e")  *)
(* with name q, attributes as and children cs, or text t (k "t").  Names in  *)
(* documents are qualified names; names in trees are [ns, n].  All text is   *)
(* a sequence of characters; no namespace is the empty text.                 *)
EXTENDS Integers, Sequences, FiniteSets
COLON == 58
XMLNS == <<120, 109, 108, 110, 115>>
XML == <<120, 109, 108>>
Chars(s) == s
XMLURI == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 88, 77, 76, 47, 49, 57, 57, 56, 47, 110, 97, 109, 101, 115, 112, 97, 99, 101>>
NSURI == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 48, 47, 120, 109, 108, 110, 115, 47>>
SPACE == <<115, 112, 97, 99, 101>>
PRESERVE == <<112, 114, 101, 115, 101, 114, 118, 101>>
Range(s) == {s[i] : i \in 1..Len(s)}
Name(ns, n) == [ns |-> ns, n |-> n]

(* ------------------------------------------------------------ namespaces *)
Colons(q) == {i \in 1..Len(q) : q[i] = COLON}
(* letters and so on are checked by the parser; here only digits, - and . may not begin a name *)
Begin(c) == c \notin (48..57) \union {45, 46, 183}
QName(q) == \/ Colons(q) = {} /\ q # <<>>
            \/ Cardinality(Colons(q)) = 1 /\ LET i == CHOOSE i \in Colons(q) : TRUE IN i \in 2..Len(q) - 1 /\ Begin(q[i + 1])
Prefix(q) == IF Colons(q) = {} THEN <<>> ELSE SubSeq(q, 1, (CHOOSE i \in Colons(q) : TRUE) - 1)
Local(q) == IF Colons(q) = {} THEN q ELSE SubSeq(q, (CHOOSE i \in Colons(q) : TRUE) + 1, Len(q))
Declares(a) == a.q = XMLNS \/ (Colons(a.q) # {} /\ Prefix(a.q) = XMLNS)
Declared(a) == IF a.q = XMLNS THEN <<>> ELSE Local(a.q)     \* the prefix
BadDecl(a) ==
  LET p == Declared(a) IN
  \/ p = XMLNS \/ (p # <<>> /\ a.v = <<>>) \/ (p = XML) # (a.v = XMLURI) \/ a.v = NSURI
(* bindings: the last one of a prefix counts *)
RECURSIVE Find(_, _, _)
Find(env, p, i) == IF i = 0 THEN <<>> ELSE IF env[i].p = p THEN env[i].u ELSE Find(env, p, i - 1)
Lookup(env, p) == IF p = XML THEN XMLURI ELSE Find(env, p, Len(env))
Decls(e) == SelectSeq(e.as, Declares)
Plain(a) == ~Declares(a)
Extend(env, e) == LET d == Decls(e) IN env \o [i \in 1..Len(d) |-> [p |-> Declared(d[i]), u |-> d[i].v]]
AName(env, q) == IF Prefix(q) = <<>> THEN Name(<<>>, q) ELSE Name(Lookup(env, Prefix(q)), Local(q))
RECURSIVE NSErr(_, _)
NSErr(e, outer) ==
  LET env == Extend(outer, e)
      as == SelectSeq(e.as, Plain) IN
  IF e.k = "t" THEN FALSE
  ELSE \/ ~QName(e.q) \/ \E i \in 1..Len(e.as) : ~QName(e.as[i].q)
       \/ \E i \in 1..Len(Decls(e)) : BadDecl(Decls(e)[i])
       \/ Prefix(e.q) = XMLNS
       \/ (Prefix(e.q) # <<>> /\ Lookup(env, Prefix(e.q)) = <<>>)
       \/ \E i \in 1..Len(as) : Prefix(as[i].q) = XMLNS
       \/ \E i, j \in 1..Len(as) : i # j /\ AName(env, as[i].q) = AName(env, as[j].q)
       \/ \E i \in 1..Len(e.cs) : NSErr(e.cs[i], env)
(* attributes with prefixes that nothing declares: the existing tests read them, so this is open *)
RECURSIVE Undeclared(_, _)
Undeclared(e, outer) ==
  LET env == Extend(outer, e)
      as == SelectSeq(e.as, Plain) IN
  e.k = "e" /\ (\/ \E i \in 1..Len(as) : Prefix(as[i].q) # <<>> /\ Lookup(env, Prefix(as[i].q)) = <<>>
               \/ \E i \in 1..Len(e.cs) : Undeclared(e.cs[i], env))
RECURSIVE Expand(_, _)
Expand(e, outer) ==
  LET env == Extend(outer, e)
      as == SelectSeq(e.as, Plain) IN
  IF e.k = "t" THEN [k |-> "t", t |-> e.t]
  ELSE [k |-> "e", q |-> Name(Lookup(env, Prefix(e.q)), Local(e.q)),
        as |-> {[q |-> AName(env, as[i].q), v |-> as[i].v] : i \in 1..Len(as)},
        cs |-> [i \in 1..Len(e.cs) |-> Expand(e.cs[i], env)]]
(* a tree as it is logged, without namespaces to expand *)
RECURSIVE Given(_)
Given(e) == IF e.k = "t" THEN [k |-> "t", t |-> e.t]
            ELSE [k |-> "e", q |-> e.q, as |-> Range(e.as), cs |-> [i \in 1..Len(e.cs) |-> Given(e.cs[i])]]

(* ----------------------------------------------------------- white space *)
White(c) == c \in {32, 9, 10, 13}
Blank(s) == \A i \in 1..Len(s) : White(s[i])
RECURSIVE Collapse(_, _)     \* sp: was the last character white space?
Collapse(s, sp) ==
  IF s = <<>> THEN <<>>
  ELSE IF White(s[1]) THEN (IF sp THEN <<>> ELSE <<32>>) \o Collapse(Tail(s), TRUE)
  ELSE <<s[1]>> \o Collapse(Tail(s), FALSE)
RECURSIVE Join(_)            \* neighbouring texts are one
Join(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE IF cs[1].k = "t" /\ cs[1].t = <<>> THEN Join(Tail(cs))
  ELSE IF cs[1].k = "t" /\ Len(cs) > 1 /\ cs[2].k = "t" THEN Join(<<[cs[1] EXCEPT !.t = @ \o cs[2].t]>> \o SubSeq(cs, 3, Len(cs)))
  ELSE <<cs[1]>> \o Join(Tail(cs))
Trim(s, first, last) ==
  LET c == Collapse(s, first) IN IF last /\ c # <<>> /\ c[Len(c)] = 32 THEN SubSeq(c, 1, Len(c) - 1) ELSE c
SpaceOf(e, keep, q) ==
  LET s == {a \in e.as : a.q = q} IN
  IF s = {} THEN keep ELSE (CHOOSE a \in s : TRUE).v = PRESERVE
XSpace == Name(XMLURI, SPACE)
(* white space at either end of an element and all between elements only means nothing, other runs are a space,      *)
(* unless xml:space is preserve                                                                                     *)
RECURSIVE Canon(_, _)
Canon(e, outer) ==
  LET keep == SpaceOf(e, outer, XSpace)
      cs == Join(e.cs)
      n == Len(cs)
      mixed == \E i \in 1..n : cs[i].k = "t" /\ ~Blank(cs[i].t)
      one(i) == IF cs[i].k = "e" THEN <<Canon(cs[i], keep)>>
                ELSE IF keep THEN <<cs[i]>>
                ELSE LET t == Trim(cs[i].t, i = 1, i = n) IN IF t = <<>> \/ ~mixed THEN <<>> ELSE <<[k |-> "t", t |-> t]>>
      all[i \in 0..n] == IF i = 0 THEN <<>> ELSE all[i - 1] \o one(i) IN
  IF e.k = "t" THEN e ELSE [e EXCEPT !.cs = all[n]]
RECURSIVE Tidy(_)
Tidy(e) == IF e.k = "t" THEN e ELSE [e EXCEPT !.cs = LET j == Join(e.cs) IN [i \in 1..Len(j) |-> Tidy(j[i])]]
SameTree(a, b) == Canon(a, FALSE) = Canon(b, FALSE)
============================================================================
