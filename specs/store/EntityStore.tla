---------------------------- MODULE EntityStore ----------------------------
(***************************************************************************)
(* The semantics of an OData entity container: entity sets holding keyed   *)
(* entities, association sets holding links, and the public operations     *)
(* that change them.  Operations are pure functions                        *)
(*      op, state  |->  [st |-> state', err |-> "ok" | error class]        *)
(* so that the model checker, the transition generator and the judge of    *)
(* recorded histories all use the same definitions.                        *)
(*                                                                         *)
(* A schema is [n |-> number of sets, a |-> sequence of associations]; an  *)
(* association is [f,t |-> set index of each role, fm,tm |-> multiplicity  *)
(* of each role ("1","?","*"), fn,tn |-> TRUE iff the role's entity type   *)
(* has a navigation property].  A navigation is <<a,d>>: d=0 is the        *)
(* property on role f, d=1 the one on role t.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

ABSENT == -1

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})

Src(sc, n)  == IF n[2] = 0 THEN sc.a[n[1]].f  ELSE sc.a[n[1]].t
Tgt(sc, n)  == IF n[2] = 0 THEN sc.a[n[1]].t  ELSE sc.a[n[1]].f
SrcM(sc, n) == IF n[2] = 0 THEN sc.a[n[1]].fm ELSE sc.a[n[1]].tm
TgtM(sc, n) == IF n[2] = 0 THEN sc.a[n[1]].tm ELSE sc.a[n[1]].fm
Named(sc, n) == IF n[2] = 0 THEN sc.a[n[1]].fn ELSE sc.a[n[1]].tn
Rev(n) == <<n[1], 1 - n[2]>>
Pair(n, s, t) == IF n[2] = 0 THEN <<s, t>> ELSE <<t, s>>

Ends(sc) == {<<i, d>> : i \in 1..Len(sc.a), d \in {0, 1}}
EndsOf(sc, s) == {n \in Ends(sc) : Src(sc, n) = s}

\* the navigation properties of a set in declared order (fixed: by association, role f first)
RECURSIVE NavSeqFrom(_, _, _)
NavSeqFrom(sc, s, i) ==
  IF i > Len(sc.a) THEN <<>>
  ELSE LET x == <<i, 0>>  y == <<i, 1>>
           p == IF Src(sc, x) = s /\ Named(sc, x) THEN <<x>> ELSE <<>>
           q == IF Src(sc, y) = s /\ Named(sc, y) THEN <<y>> ELSE <<>>
       IN p \o q \o NavSeqFrom(sc, s, i + 1)
NavSeq(sc, s) == NavSeqFrom(sc, s, 1)

Exists(st, s, k) == st.e[s][k] # ABSENT
Targets(st, n, k) ==
  IF n[2] = 0 THEN {p[2] : p \in {q \in st.l[n[1]] : q[1] = k}}
              ELSE {p[1] : p \in {q \in st.l[n[1]] : q[2] = k}}

Empty(sc, keys) == [e |-> [s \in 1..sc.n |-> [k \in keys |-> ABSENT]],
                    l |-> [i \in 1..Len(sc.a) |-> {}]]

OK(st) == [st |-> st, err |-> "ok"]
Err(st, x) == [st |-> st, err |-> x]

PutVal(st, s, k, v) == [st EXCEPT !.e[s][k] = v]
AddLink(st, n, s, t) == [st EXCEPT !.l[n[1]] = @ \cup {Pair(n, s, t)}]
RemLink(st, n, s, t) == [st EXCEPT !.l[n[1]] = @ \ {Pair(n, s, t)}]

(********************** links through a navigation ************************)
NavSet(sc, st, n, s, t) ==
  LET rs == Targets(st, n, s) IN
  IF t \in rs THEN OK(st)
  ELSE IF ~Exists(st, Tgt(sc, n), t) THEN Err(st, "KeyError")
  ELSE IF TgtM(sc, n) # "*" /\ rs # {} THEN Err(st, "NavigationError")
  ELSE IF SrcM(sc, n) # "*" /\ Targets(st, Rev(n), t) # {} THEN Err(st, "NavigationError")
  ELSE OK(AddLink(st, n, s, t))

NavDel(sc, st, n, s, t) ==
  IF SrcM(sc, n) = "1" \/ TgtM(sc, n) = "1" THEN Err(st, "NavigationError")
  ELSE IF t \notin Targets(st, n, s) THEN Err(st, "KeyError")
  ELSE OK(RemLink(st, n, s, t))

\* replaces all links of s by the single link to t, which is an existing entity
NavReplace(sc, st, n, s, t) ==
  LET rs == Targets(st, n, s) IN
  IF rs = {t} THEN OK(st)
  ELSE IF SrcM(sc, n) = "1" THEN
         IF rs # {} THEN Err(st, "NavigationError") ELSE NavSet(sc, st, n, s, t)
  ELSE IF t \notin rs /\ SrcM(sc, n) # "*" /\ Targets(st, Rev(n), t) # {}
         THEN Err(st, "NavigationError")
  ELSE OK([st EXCEPT !.l[n[1]] =
             (@ \ {Pair(n, s, x) : x \in rs}) \cup {Pair(n, s, t)}])

NavClear(sc, st, n, s) ==
  LET rs == Targets(st, n, s) IN
  IF rs = {} THEN OK(st)
  ELSE IF SrcM(sc, n) = "1" \/ TgtM(sc, n) = "1" THEN Err(st, "NavigationError")
  ELSE OK([st EXCEPT !.l[n[1]] = @ \ {Pair(n, s, x) : x \in rs}])

(****************************** deletion **********************************)
\* Everything that must disappear with <<s,k>>: the entities that require a link to it, and so
\* on.  A cascade may not follow an association from an end that has no navigation property,
\* except back to an entity that is going already.
Dependents(sc, st, x) ==
  UNION {{[n |-> n, x |-> <<Tgt(sc, n), y>>] : y \in Targets(st, n, x[2])} :
           n \in {m \in EndsOf(sc, x[1]) : SrcM(sc, m) = "1"}}
RECURSIVE Collect(_, _, _, _)
\* todo: sequence of entities yet to visit; gone: those that go.  {} means the deletion is refused.
Collect(sc, st, todo, gone) ==
  IF todo = <<>> THEN gone
  ELSE LET x == Head(todo)
           ds == Dependents(sc, st, x)
           new == {d.x : d \in ds} \ gone
       IN IF \E d \in ds : ~Named(sc, d.n) /\ d.x \notin gone THEN {}
          ELSE Collect(sc, st, Tail(todo) \o SetToSeq(new), gone \cup new)

RemoveAll(sc, st, gone) ==
  [e |-> [s \in DOMAIN st.e |-> [k \in DOMAIN st.e[s] |->
             IF <<s, k>> \in gone THEN ABSENT ELSE st.e[s][k]]],
   l |-> [i \in DOMAIN st.l |-> {p \in st.l[i] :
             <<sc.a[i].f, p[1]>> \notin gone /\ <<sc.a[i].t, p[2]>> \notin gone}]]

Delete(sc, st, s, k) ==
  IF ~Exists(st, s, k) THEN Err(st, "KeyError")
  ELSE LET gone == Collect(sc, st, <<<<s, k>>>>, {<<s, k>>}) IN
       IF gone = {} THEN Err(st, "NavigationError")
       ELSE OK(RemoveAll(sc, st, gone))

\* emptying a set deletes its entities one by one in some order; the result does not depend on the
\* order unless a deletion is refused, so the model is told where it stopped
RECURSIVE Clear(_, _, _, _)
Clear(sc, st, s, ks) ==
  IF ks = <<>> THEN OK(st)
  ELSE IF ~Exists(st, s, Head(ks)) THEN Clear(sc, st, s, Tail(ks))
  ELSE LET r == Delete(sc, st, s, Head(ks)) IN
       IF r.err # "ok" THEN r ELSE Clear(sc, r.st, s, Tail(ks))

(************************** insertion and update ***************************)
(* A binding is [t |-> "key", k] (an existing entity, named by its key) or *)
(* [t |-> "new", k, v, b] (a new entity with bindings of its own).         *)
(* b is a sequence parallel to NavSeq(set) of sequences of bindings.       *)
NOEND == <<0, 0>>

RequiredUnbound(sc, s, b, ign) ==
  LET ns == NavSeq(sc, s) IN
  \/ \E n \in EndsOf(sc, s) : ~Named(sc, n) /\ TgtM(sc, n) = "1" /\ n # ign
  \/ \E i \in 1..Len(ns) : ns[i] # ign /\ TgtM(sc, ns[i]) = "1" /\ b[i] = <<>>

RECURSIVE Insert(_, _, _, _, _, _, _)
RECURSIVE Bind(_, _, _, _, _, _, _)

NavInsert(sc, st, n, s, k, v, b) ==
  LET r == Insert(sc, st, Tgt(sc, n), k, v, b, Rev(n)) IN
  IF r.err # "ok" THEN Err(st, r.err)
  ELSE LET q == NavSet(sc, r.st, n, s, k) IN
       IF q.err # "ok" THEN Err(st, q.err) ELSE q

BindOne(sc, st, n, s, bd) ==
  IF bd.t = "new" THEN NavInsert(sc, st, n, s, bd.k, bd.v, bd.b)
  ELSE IF ~Exists(st, Tgt(sc, n), bd.k) THEN Err(st, "KeyError")
  ELSE IF TgtM(sc, n) = "*" THEN NavSet(sc, st, n, s, bd.k)
  ELSE NavReplace(sc, st, n, s, bd.k)

\* bindings are acted on in order, stopping at the first that fails
Bind(sc, st, ns, s, b, i, j) ==
  IF i > Len(ns) THEN OK(st)
  ELSE IF j > Len(b[i]) THEN Bind(sc, st, ns, s, b, i + 1, 1)
  ELSE LET r == BindOne(sc, st, ns[i], s, b[i][j]) IN
       IF r.err # "ok" THEN r ELSE Bind(sc, r.st, ns, s, b, i, j + 1)

\* a rejected insertion or update leaves the container as it was
Insert(sc, st, s, k, v, b, ign) ==
  IF Exists(st, s, k) THEN Err(st, "ConstraintError")
  ELSE IF RequiredUnbound(sc, s, b, ign) THEN Err(st, "NavigationError")
  ELSE LET r == Bind(sc, PutVal(st, s, k, v), NavSeq(sc, s), k, b, 1, 1) IN
       IF r.err # "ok" THEN Err(st, r.err) ELSE r

Update(sc, st, s, k, v, b) ==
  IF ~Exists(st, s, k) THEN Err(st, "KeyError")
  ELSE LET r == Bind(sc, PutVal(st, s, k, v), NavSeq(sc, s), k, b, 1, 1) IN
       IF r.err # "ok" THEN Err(st, r.err) ELSE r

(****************************** dispatcher *********************************)
\* op.n is an index into NavSeq(sc, op.s)
Apply(sc, st, op) ==
  LET n == NavSeq(sc, op.s)[op.n] IN
  CASE op.op = "insert" -> Insert(sc, st, op.s, op.k, op.v, op.b, NOEND)
    [] op.op = "update" -> Update(sc, st, op.s, op.k, op.v, op.b)
    [] op.op = "delete" -> Delete(sc, st, op.s, op.k)
    [] op.op = "clear"  -> Clear(sc, st, op.s, SortedSeq({k \in DOMAIN st.e[op.s] : Exists(st, op.s, k)}))
    \* operations through a navigation property need their source entity to exist
    [] ~Exists(st, op.s, op.k) -> Err(st, "KeyError")
    [] op.op = "navset"   -> IF Exists(st, Tgt(sc, n), op.t) THEN NavSet(sc, st, n, op.k, op.t)
                                                            ELSE Err(st, "KeyError")
    [] op.op = "navrep"   -> IF Exists(st, Tgt(sc, n), op.t) THEN NavReplace(sc, st, n, op.k, op.t)
                                                            ELSE Err(st, "KeyError")
    [] op.op = "navdel"   -> NavDel(sc, st, n, op.k, op.t)
    [] op.op = "navclear" -> NavClear(sc, st, n, op.k)
    [] op.op = "navins"   -> NavInsert(sc, st, n, op.k, op.t, op.v, op.b)

(****************************** properties *********************************)
NoDangling(sc, st) ==
  \A i \in DOMAIN st.l : \A p \in st.l[i] :
     Exists(st, sc.a[i].f, p[1]) /\ Exists(st, sc.a[i].t, p[2])

AtMost(sc, st) ==
  \A n \in Ends(sc) : TgtM(sc, n) # "*" =>
     \A k \in DOMAIN st.e[Src(sc, n)] : Cardinality(Targets(st, n, k)) <= 1

Required(sc, st) ==
  \A n \in Ends(sc) : TgtM(sc, n) = "1" =>
     \A k \in DOMAIN st.e[Src(sc, n)] :
        Exists(st, Src(sc, n), k) => Targets(st, n, k) # {}

Integrity(sc, st) == NoDangling(sc, st) /\ AtMost(sc, st) /\ Required(sc, st)

(* What a client sees: for each set, each existing entity in key order with *)
(* its value and, for each navigation property, the keys of its targets.    *)
View(sc, st) ==
  [s \in 1..sc.n |->
     LET ks == SortedSeq({k \in DOMAIN st.e[s] : Exists(st, s, k)})
         ns == NavSeq(sc, s) IN
     [i \in 1..Len(ks) |->
        <<ks[i], st.e[s][ks[i]],
          [j \in 1..Len(ns) |-> SortedSeq(Targets(st, ns[j], ks[i]))]>>]]
=============================================================================
