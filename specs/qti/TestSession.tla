---------------------------- MODULE TestSession ----------------------------
(* Sessions of tests with linear, individually submitted parts: the order  *)
(* of questions under preconditions and branch rules, the item sessions    *)
(* inside (module Session), the clocks and the session keys.               *)
(*   T.form   the sequence of components: "", parts, sections, items and    *)
(*            the ends ("-" and the identifier) of parts and sections       *)
(*   T.nodes  for every identifier its kind, part, preconditions, branch    *)
(*            rules, and for items the item and the template defaults       *)
EXTENDS Session

Opens(T, j) == T.form[j] \in DOMAIN T.nodes
Ends(T) == {"-" \o x : x \in DOMAIN T.nodes}
Closed(T, j) == CHOOSE x \in DOMAIN T.nodes : "-" \o x = T.form[j]
Node(T, j) == IF Opens(T, j) THEN T.nodes[T.form[j]] ELSE T.nodes[Closed(T, j)]
Least(s) == CHOOSE m \in s : \A k \in s : m <= k
First(T, x) == Least({j \in 1..Len(T.form) : T.form[j] = x})
There(T, x) == \E j \in 1..Len(T.form) : T.form[j] = x
IsItem(T, j) == Opens(T, j) /\ Node(T, j).kind = "item"
Items(T) == {j \in 1..Len(T.form) : IsItem(T, j)}
EndOf(T, j) == Least({k \in j..Len(T.form) : T.form[k] = "-" \o T.form[j]})
(* the sections, part and test that are open at j *)
OpenAt(T, j) == {1} \cup {k \in 2..j - 1 : Opens(T, k) /\ ~IsItem(T, k) /\ EndOf(T, k) > j}
Done(T) == Len(T.form) + 1

(* state: cur  the question (1 before the start, Done(T) at the end)        *)
(*        its  the item sessions; dur  the clocks (quarters, -1 for NULL)   *)
(*        out  the outcomes of the test; t  the last event; n  keys given   *)
Item(T, j) == T.items[Node(T, j).item]
Begun(T) == [cur |-> 1, its |-> [j \in Items(T) |-> Start(Item(T, j).decls)], dur |-> [j \in 1..Len(T.form) |-> -1],
             out |-> [x \in Names(T.outs) |-> LET d == Decl(T.outs, x) IN [k |-> "x", val |-> Nul(d.def), def |-> d.def, cor |-> d.cor, mp |-> <<>>, ar |-> <<>>, sv |-> <<>>]],
             t |-> 0, n |-> 1]
Clock(c) == Builtin("r", IF c < 0 THEN Nil("duration") ELSE One("duration", Norm(c, 4)))
(* the variables that conditions see; T.vars lists their names *)
Vars(T, s) == [x \in {T.vars[k].n : k \in 1..Len(T.vars)} |->
  LET v == T.vars[CHOOSE k \in 1..Len(T.vars) : T.vars[k].n = x] IN
  IF v.id = "" THEN (IF v.x = "duration" THEN Clock(s.dur[1]) ELSE s.out[v.x])
  ELSE IF v.x = "duration" THEN Clock(s.dur[First(T, v.id)]) ELSE s.its[First(T, v.id)][v.x]]

(* ------------------------------------------------------------ conditions *)
Res(st, s) == [st |-> st, s |-> s]
RECURSIVE Refs(_)
Refs(e) == {e.id} \cup UNION {Refs(e.kids[k]) : k \in 1..Len(e.kids)}
Cond(T, e, s) ==       \* "t", "f", or "err" or "any"
  LET V0 == Vars(T, s) IN
  IF \E x \in Refs(e) : x # "" /\ ~Has(V0, x) THEN "any"          \* a component that was not selected
  ELSE LET v == Eval(e, V0) IN
    IF v.s = "e" THEN "err" ELSE IF v.s # "v" THEN "any" ELSE IF ~Typed(<<v>>, "boolean") THEN "err" ELSE IF v.v = <<<<1>>>> THEN "t" ELSE "f"
RECURSIVE AllTrue(_, _, _)
AllTrue(T, es, s) == IF es = <<>> THEN "t" ELSE LET c == Cond(T, Head(es), s) IN IF c = "t" THEN AllTrue(T, Tail(es), s) ELSE c
RECURSIVE Target(_, _, _, _)
Target(T, j, rs, s) ==     \* the target of the first rule that is true ("" if there is none)
  IF rs = <<>> THEN "" ELSE LET c == Cond(T, Head(rs).e, s)  x == Head(rs).t IN
    IF c = "f" THEN Target(T, j, Tail(rs), s)
    ELSE IF c # "t" THEN "!" \o c
    ELSE IF x = "EXIT_TEST" THEN x
    ELSE IF Node(T, j).kind = "part" THEN (IF x \in DOMAIN T.nodes /\ T.nodes[x].kind = "part" THEN x ELSE "!err")
    ELSE IF x \in {"EXIT_SECTION", "EXIT_TESTPART"} THEN x
    ELSE IF x \in DOMAIN T.nodes /\ T.nodes[x].kind # "part" /\ T.nodes[x].part = Node(T, j).part THEN x ELSE "!err"
Enclosing(T, j) == OpenAt(T, j) \ {1}         \* (a section is no longer open at its own end)

(* ------------------------------------------------------------- navigation *)
RECURSIVE Go(_, _, _)
RECURSIVE Leave(_, _, _)
RECURSIVE Defaults(_, _, _, _)
Defaults(T, ds, j, s) ==
  IF ds = <<>> THEN Res("ok", s)
  ELSE LET V0 == Vars(T, s) IN
    IF \E x \in Refs(Head(ds).e) : x # "" /\ ~Has(V0, x) THEN Res("any", s)
    ELSE LET v == Eval(Head(ds).e, V0)  d == s.its[j][Head(ds).id] IN
      IF v.s # "v" THEN Res(IF v.s = "e" THEN "err" ELSE "any", s)
      ELSE IF ~Fits(v, d.val) THEN Res("err", s)
      ELSE Defaults(T, Tail(ds), j, [s EXCEPT !.its[j][Head(ds).id].val = Give(d.val, v)])
Ask(T, j, s) ==           \* the question j is presented
  LET a == Defaults(T, Node(T, j).tdef, j, s) IN
  IF a.st # "ok" THEN a
  ELSE LET b == Process(Item(T, j).trules, a.s.its[j]) IN
    IF b.st # "ok" THEN Res(b.st, a.s)
    ELSE Res("ok", [a.s EXCEPT !.its[j] = Attempt(Begin(b.S)), !.dur[j] = 0, !.cur = j])
Go(T, j, s) ==            \* go on at j
  IF j > Len(T.form) THEN Res("ok", [s EXCEPT !.cur = Done(T)])
  ELSE IF ~Opens(T, j) THEN Leave(T, j, s)
  ELSE LET c == AllTrue(T, Node(T, j).pre, s) IN
    IF c = "f" THEN Go(T, IF IsItem(T, j) THEN j + 1 ELSE EndOf(T, j) + 1, s)
    ELSE IF c # "t" THEN Res(c, s)
    ELSE IF IsItem(T, j) THEN Ask(T, j, s) ELSE Go(T, j + 1, s)
Leave(T, j, s) ==         \* go on after the item or the end of a section or part at j
  LET x == Target(T, j, Node(T, j).br, s) IN
  IF x = "" THEN Go(T, j + 1, s)
  ELSE IF x = "!err" THEN Res("err", s)
  ELSE IF x = "!any" THEN Res("any", s)
  ELSE IF x = "EXIT_TEST" THEN Res("ok", [s EXCEPT !.cur = Done(T)])
  ELSE IF x = "EXIT_TESTPART" THEN Go(T, EndOf(T, Least(Enclosing(T, j))) + 1, s)
  ELSE IF x = "EXIT_SECTION" THEN
    (IF Cardinality(Enclosing(T, j)) < 2 THEN Res("any", s)
     ELSE Go(T, EndOf(T, CHOOSE k \in Enclosing(T, j) : \A m \in Enclosing(T, j) : m <= k) + 1, s))
  ELSE LET f == {k \in j + 1..Len(T.form) : T.form[k] = x} IN IF f = {} THEN Res("any", s) ELSE Go(T, Least(f), s)

(* ----------------------------------------------------------------- events *)
Tick(T, s, t) == IF s.cur \notin Items(T) THEN s
  ELSE [s EXCEPT !.dur = [j \in 1..Len(T.form) |-> IF j = s.cur \/ j \in OpenAt(T, s.cur) THEN (IF s.dur[j] < 0 THEN 0 ELSE s.dur[j]) + (t - s.t) ELSE s.dur[j]]]
Fields(T, e, s) == LET f == {k \in 1..Len(e.fs) : e.fs[k].id = T.form[s.cur]} IN IF f = {} THEN <<>> ELSE e.fs[CHOOSE k \in f : TRUE].ps
Event(T, e, s) ==
  IF e.a = "none" THEN Res("noaction", s)
  ELSE IF e.key < 0 THEN Res("mismatch", s)
  ELSE IF e.key > 0 THEN Res("expired", s)
  ELSE LET s1 == [s EXCEPT !.n = s.n + 1, !.t = e.t] IN
    IF e.a = "begin" THEN
      Go(T, 2, [s1 EXCEPT !.dur[1] = 0, !.out = [x \in DOMAIN s.out |-> [s.out[x] EXCEPT !.val = Zero(s.out[x].def)]]])
    ELSE IF s.cur = Done(T) THEN Res("ok", s1)
    ELSE LET s2 == [Tick(T, s, e.t) EXCEPT !.n = s1.n, !.t = s1.t]
             o == Act([a |-> e.a, ps |-> Fields(T, e, s)], Item(T, s.cur), s2.its[s.cur])
             s3 == [s2 EXCEPT !.its[s.cur] = o.S] IN
      IF o.st # "ok" THEN Res(o.st, s2)
      ELSE IF e.a = "save" THEN Res("ok", s3)
      ELSE Leave(T, s.cur, s3)
=============================================================================
