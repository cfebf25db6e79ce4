------------------------------- MODULE MCTree -------------------------------
(* Writing: elements are opened and closed; each needs a prefix bound to its *)
(* namespace where it is written.  A writer takes a prefix that an ancestor  *)
(* declared only while nothing nearer hides it, or declares one of its own.  *)
EXTENDS Tree, TLC
CONSTANT MaxDepth, SeesHidden     \* SeesHidden: a writer that forgets about hiding (must fail)
Spaces == {<<>>, <<1>>, <<2>>, <<3>>}
Prefixes == {<<>>, <<97>>, <<98>>}
VARIABLES env, open               \* open: [want, p, n] with n the bindings that were there before
vars == <<env, open>>
Init == env = <<>> /\ open = <<>>
Usable(ns) ==
  {p \in Prefixes : (ns # <<>> \/ p = <<>>) /\
     IF SeesHidden THEN (\E i \in 1..Len(env) : env[i].p = p /\ env[i].u = ns) \/ (ns = <<>> /\ env = <<>>)
     ELSE Lookup(env, p) = ns}
Bind(p, ns) == <<[p |-> p, u |-> ns]>>
Open(ns) ==
  /\ Len(open) < MaxDepth
  /\ \E p \in Prefixes :
       \/ p \in Usable(ns) /\ env' = env /\ open' = Append(open, [want |-> ns, p |-> p, n |-> Len(env)])
       \/ (ns # <<>> \/ p = <<>>) /\ env' = env \o Bind(p, ns) /\ open' = Append(open, [want |-> ns, p |-> p, n |-> Len(env)])
(* an attribute in a namespace: never the default one *)
Attribute(ns) ==
  /\ open # <<>> /\ ns # <<>> /\ Usable(ns) \ {<<>>} = {}
  /\ \E p \in Prefixes \ {<<>>} :
       /\ \A i \in open[Len(open)].n + 1..Len(env) : env[i].p # p     \* one declaration of a prefix per element
       /\ p # open[Len(open)].p
       /\ env' = env \o Bind(p, ns) /\ UNCHANGED open
Close == open # <<>> /\ env' = SubSeq(env, 1, open[Len(open)].n) /\ open' = SubSeq(open, 1, Len(open) - 1)
Next == (\E ns \in Spaces : Open(ns) \/ Attribute(ns)) \/ Close
(* the element that is open reads back as what was wanted *)
Faithful == open = <<>> \/ Lookup(env, open[Len(open)].p) = open[Len(open)].want
Scoped == open # <<>> \/ env = <<>>

(* the canonical form is canonical: white space that means nothing is gone at once *)
Texts == {<<>>, <<32>>, <<97>>, <<32, 97>>, <<97, 10, 32, 98>>}
Elem(q, as, cs) == [k |-> "e", q |-> Name(<<>>, <<q>>), as |-> as, cs |-> cs]
Txt(t) == [k |-> "t", t |-> t]
Keep == {[q |-> XSpace, v |-> PRESERVE]}
Kids == {Txt(t) : t \in Texts} \union {Elem(99, as, <<Txt(t)>>) : t \in Texts, as \in {{}, Keep}}
Trees == {Elem(97, as, cs) : as \in {{}, Keep}, cs \in UNION {[1..n -> Kids] : n \in 0..3}}
ASSUME \A t \in Trees : Canon(Canon(t, FALSE), FALSE) = Canon(t, FALSE) /\ Tidy(Tidy(t)) = Tidy(t) /\ SameTree(t, Tidy(t))
=============================================================================
