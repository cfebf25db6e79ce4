------------------------------ MODULE MCStore ------------------------------
(* Exhaustive exploration of small entity containers: every reachable      *)
(* state of every schema in the input, every operation in every state.     *)
(* Checks Integrity and the action properties below, and prints, for each  *)
(* state, what each operation must do (one JSON line per state).           *)
EXTENDS EntityStore, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.VQ_SCHEMAS)
Keys == 1..2
MaxBind == 1

VARIABLES si, st
vars == <<si, st>>
sc == Schemas[si]

KeyB(k) == [t |-> "key", k |-> k, v |-> 0, b |-> <<>>]
NewB(k, b) == [t |-> "new", k |-> k, v |-> 0, b |-> b]
NoB(c, s) == [i \in 1..Len(NavSeq(c, s)) |-> <<>>]

\* binding lists for the navigations of set s: none, or one/two bindings of a single navigation,
\* or one key binding on each of two navigations
Opt0(c, s) == {NoB(c, s)} \cup
   {[NoB(c, s) EXCEPT ![i] = <<KeyB(k)>>] : i \in 1..Len(NavSeq(c, s)), k \in Keys}
OptNav(c, n) ==
   {<<KeyB(k)>> : k \in Keys} \cup
   {<<NewB(k, b)>> : k \in Keys, b \in Opt0(c, Tgt(c, n))} \cup
   (IF TgtM(c, n) = "*" THEN {<<KeyB(1), KeyB(2)>>, <<KeyB(1), NewB(2, NoB(c, Tgt(c, n)))>>,
                             <<NewB(1, NoB(c, Tgt(c, n))), KeyB(1)>>,
                             <<NewB(1, NoB(c, Tgt(c, n))), NewB(2, NoB(c, Tgt(c, n)))>>} ELSE {})
Opts(c, s) ==
   LET ns == NavSeq(c, s) IN
   {NoB(c, s)} \cup UNION {{[NoB(c, s) EXCEPT ![i] = o] : o \in OptNav(c, ns[i])} : i \in 1..Len(ns)}
   \cup {[[NoB(c, s) EXCEPT ![i] = <<KeyB(k)>>] EXCEPT ![j] = <<b>>] :
            i \in 1..Len(ns), j \in 1..Len(ns), k \in Keys, b \in {KeyB(1), KeyB(2)} \cup
                {NewB(x, NoB(c, Tgt(c, ns[1]))) : x \in IF Len(ns) > 1 THEN Keys ELSE {}}}

\* a binding list is well formed if the nested lists match the target set's navigations
RECURSIVE WF(_, _, _)
WF(c, s, b) == LET ns == NavSeq(c, s) IN
   /\ Len(b) = Len(ns)
   /\ \A i \in 1..Len(ns) : \A j \in 1..Len(b[i]) :
         b[i][j].t = "new" => WF(c, Tgt(c, ns[i]), b[i][j].b)

Op(o, s, k, v, n, t, b) == [op |-> o, s |-> s, k |-> k, v |-> v, n |-> n, t |-> t, b |-> b]
Ops(c) ==
  UNION {LET ns == NavSeq(c, s) IN
     {Op("insert", s, k, 0, 1, 0, b) : k \in Keys, b \in {x \in Opts(c, s) : WF(c, s, x)}}
     \cup {Op("update", s, k, 0, 1, 0, b) : k \in Keys, b \in {x \in Opts(c, s) : WF(c, s, x)} \ {NoB(c, s)}}
     \cup {Op("delete", s, k, 0, 1, 0, <<>>) : k \in Keys}
     \cup {Op(o, s, k, 0, n, t, <<>>) : o \in {"navset", "navrep", "navdel"}, k \in Keys, n \in 1..Len(ns), t \in Keys}
     \cup {Op("navclear", s, k, 0, n, 0, <<>>) : k \in Keys, n \in 1..Len(ns)}
     \cup {Op("clear", s, 0, 0, 1, 0, <<>>)}
     \cup UNION {{Op("navins", s, k, 0, n, t, b) : k \in Keys, t \in Keys, b \in Opt0(c, Tgt(c, ns[n]))} : n \in 1..Len(ns)}
   : s \in 1..c.n}
OpSeqs == [i \in 1..Len(Schemas) |-> SetToSeq(Ops(Schemas[i]))]

Init == si \in 1..Len(Schemas) /\ st = Empty(sc, Keys)
Next == /\ \E o \in {OpSeqs[si][i] : i \in 1..Len(OpSeqs[si])} : st' = Apply(sc, st, o).st
        /\ UNCHANGED si

Inv == Integrity(sc, st)

\* an operation that is refused leaves the container as it was
Refused == \A i \in 1..Len(OpSeqs[si]) :
   LET o == OpSeqs[si][i]  r == Apply(sc, st, o) IN
   r.err # "ok" /\ o.op # "clear" => r.st = st

\* deletion removes nothing that neither was named nor depends on something removed
DeleteMinimal == \A s \in 1..sc.n : \A k \in Keys :
   LET r == Delete(sc, st, s, k) IN r.err = "ok" =>
     LET gone == {<<x, y>> \in (1..sc.n) \X Keys : Exists(st, x, y) /\ ~Exists(r.st, x, y)} IN
     /\ <<s, k>> \in gone
     /\ \A g \in gone \ {<<s, k>>} : \E h \in gone : g \in {d.x : d \in Dependents(sc, st, h)}

Emit ==
  /\ st = Empty(sc, Keys) => PrintT(ToJson([t |-> "ops", si |-> si, ops |-> OpSeqs[si]]))
  /\ PrintT(ToJson([t |-> "st", si |-> si, view |-> View(sc, st),
       r |-> [i \in 1..Len(OpSeqs[si]) |->
               LET q == Apply(sc, st, OpSeqs[si][i]) IN
               IF OpSeqs[si][i].op = "clear" /\ q.err # "ok" THEN <<"skip">>
               ELSE IF q.st = st THEN <<q.err>> ELSE <<q.err, View(sc, q.st)>>]]))
=============================================================================
