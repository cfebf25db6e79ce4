------------------------------ MODULE Migrate ------------------------------
(* The migration of a QTI version 1.2 item to version 2.1.                   *)
(* An item has responses (response_lid, _str, _num with a rendering), a body  *)
(* of words and responses, variables (decvar), conditions (respcondition) and *)
(* feedbacks.  Migrated(X) is the version 2 item in observable terms: its     *)
(* declarations, the interactions it offers and the words it shows, in order. *)
(* Score(X, R) is what version 1 response processing makes of the responses   *)
(* R: the conditions are taken in turn, a condition that matches sets its     *)
(* variables and shows its feedback, and the next one is only considered if   *)
(* it did not match or says continue.  A test of a response that was not      *)
(* given (or not declared) is unknown: <<>> in three-valued logic.            *)
EXTENDS QTI

(* ---------------------------------------------------------- identifiers *)
NStart(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
NChar(c) == NStart(c) \/ c \in 48..57 \/ c \in {45, 46}
IdChar(c) == IF c = 58 THEN 45 ELSE IF NChar(c) THEN c ELSE 95
IdentP(s, p) == (IF NStart(s[1]) THEN <<>> ELSE p) \o [i \in 1..Len(s) |-> IdChar(s[i])]
Ident(s) == IdentP(s, <<95>>)
FEEDBACK == <<70, 69, 69, 68, 66, 65, 67, 75>>
FIdent(s) == IdentP(s, FEEDBACK \o <<95>>)

Many(r) == r.render = "fib" /\ Len(r.gaps) > 1
Part(r, k) == Ident(r.id) \o <<95, 48, 48 + k>>
Parts(r) == IF Many(r) THEN [k \in 1..Len(r.gaps) |-> Part(r, k)] ELSE <<Ident(r.id)>>

(* --------------------------------------------------------- declarations *)
Shown(X) == \E i \in 1..Len(X.conds) : X.conds[i].fb # <<>>
RDecl(r) == {[id |-> Parts(r)[k], k |-> "R", c |-> r.card, b |-> r.base, def |-> r.start, min |-> <<>>, max |-> <<>>, cut |-> <<>>] : k \in 1..Len(Parts(r))}
  \union (IF Many(r) THEN {[id |-> Ident(r.id), k |-> "O", c |-> r.card, b |-> r.base, def |-> <<>>, min |-> <<>>, max |-> <<>>, cut |-> <<>>]} ELSE {})
VDecl(v) == [id |-> Ident(v.id), k |-> "O", c |-> "single", b |-> v.base, def |-> v.def, min |-> v.min, max |-> v.max, cut |-> v.cut]
FDecl == [id |-> FEEDBACK, k |-> "O", c |-> "multiple", b |-> "identifier", def |-> <<>>, min |-> <<>>, max |-> <<>>, cut |-> <<>>]
Decls(X) == UNION {RDecl(X.resps[i]) : i \in 1..Len(X.resps)} \union {VDecl(X.vars[i]) : i \in 1..Len(X.vars)}
  \union (IF Shown(X) THEN {FDecl} ELSE {})

(* --------------------------------------------------- interactions, words *)
Zero(s) == IF s = <<>> THEN 0 ELSE s[1]
Choice(r, l) == [id |-> Ident(l.id), fixed |-> IF r.shuffle = 1 THEN l.fixed ELSE 0, txt |-> l.txt]
Offer(r, k) ==
  LET blank == [id |-> Parts(r)[k], k |-> "", shuffle |-> 0, min |-> 0, max |-> 0, lo |-> <<>>, hi |-> <<>>, step |-> <<>>, orient |-> "", chars |-> <<>>, lines |-> <<>>, ch |-> <<>>]
      ch == [i \in 1..Len(r.labels) |-> Choice(r, r.labels[i])]
      all == IF r.max = <<>> THEN Len(r.labels) ELSE r.max[1] IN
  CASE r.render = "choice" -> [blank EXCEPT !.k = "ChoiceInteraction", !.shuffle = r.shuffle, !.min = Zero(r.min), !.ch = ch,
                               !.max = IF r.max # <<>> THEN r.max[1] ELSE IF r.card = "multiple" THEN 0 ELSE 1]
    [] r.render = "slider" /\ r.t = "lid" -> [blank EXCEPT !.k = "ChoiceInteraction", !.ch = ch,
                               !.min = IF r.card = "single" THEN 1 ELSE IF r.min # <<>> THEN r.min[1] ELSE all,
                               !.max = IF r.card = "single" THEN 1 ELSE all]
    [] r.render = "slider" -> [blank EXCEPT !.k = "SliderInteraction", !.lo = r.lo, !.hi = r.hi, !.step = r.step, !.orient = r.orient]
    [] OTHER -> [blank EXCEPT !.k = IF r.lines = <<>> THEN "TextEntryInteraction" ELSE "ExtendedTextInteraction", !.chars = r.chars, !.lines = r.lines]
Offers(X) == Concat([i \in 1..Len(X.resps) |-> [k \in 1..Len(Parts(X.resps[i])) |-> Offer(X.resps[i], k)]])
At(id) == <<<<64>> \o id>>
Body(r) ==
  IF r.render = "fib" THEN r.before \o Concat([k \in 1..Len(r.gaps) |-> r.gaps[k] \o At(Parts(r)[k])]) \o r.after
  ELSE At(Ident(r.id)) \o r.before \o Concat([i \in 1..Len(r.labels) |-> r.labels[i].txt]) \o r.after
Words(X) == Concat([i \in 1..Len(X.toks) |-> IF X.toks[i].r = 0 THEN X.toks[i].w ELSE Body(X.resps[X.toks[i].r])])
Feedback(f) == [id |-> FIdent(f.id), show |-> "show", out |-> "FEEDBACK", title |-> f.title, txt |-> f.txt]

(* -------------------------------------------------- response processing *)
T == <<1>>
F == <<0>>
TV(b) == IF b THEN T ELSE F
RECURSIVE Test(_, _, _)
SameText(x, y, cs) == IF cs = 1 THEN x = y ELSE Low(x) = Low(y)
Num1(r, x) == IF r.base = "integer" THEN <<x[1], 1>> ELSE x
Test(X, t, R) ==
  LET ks == [i \in 1..Len(t.kids) |-> Test(X, t.kids[i], R)]
      some(k) == \E i \in 1..Len(ks) : ks[i] = k IN
  CASE t.op = "other" -> T
    [] t.op = "missing" -> <<>>
    [] t.op = "not" -> IF ks[1] = <<>> THEN <<>> ELSE TV(ks[1] = F)
    [] t.op = "and" -> IF some(F) THEN F ELSE IF some(<<>>) THEN <<>> ELSE T
    [] t.op = "or" -> IF some(T) THEN T ELSE IF some(<<>>) THEN <<>> ELSE F
    [] OTHER ->
       LET r == X.resps[t.r]
           all == R[t.r]
           v == IF t.ix = 0 THEN all ELSE IF t.ix <= Len(all) THEN <<all[t.ix]>> ELSE <<>> IN
       IF v = <<>> THEN <<>>
       ELSE CASE t.op = "equal" -> TV(\E i \in 1..Len(v) : IF r.base \in {"integer", "float"} THEN v[i] = t.v ELSE SameText(v[i], t.v, t.cs))
              [] t.op = "lt" -> TV(QLess(Num1(r, v[1]), Num1(r, t.v)))
              [] t.op = "gt" -> TV(QLess(Num1(r, t.v), Num1(r, v[1])))
              [] t.op = "lte" -> TV(~QLess(Num1(r, t.v), Num1(r, v[1])))
              [] t.op = "gte" -> TV(~QLess(Num1(r, v[1]), Num1(r, t.v)))

Unspec == <<<<0>>, <<0>>>>            \* too big to follow
Apply(b, act, x, k) ==                \* the value <<>> (none) or <<scalar>> after one setvar
  IF act = "Set" THEN <<k>>
  ELSE IF Len(x) = 2 THEN Unspec
  ELSE IF x = <<>> THEN <<>>
  ELSE LET p == IF b = "integer" THEN <<x[1][1], 1>> ELSE x[1]
           s == IF b = "integer" THEN <<k[1], 1>> ELSE k
           y == CASE act = "Add" -> QAdd(p, s) [] act = "Subtract" -> QSub(p, s) [] act = "Multiply" -> QMul(p, s)
                  [] act = "Divide" -> QMul(p, Norm(s[2], s[1])) IN
       IF Big(y) THEN Unspec ELSE IF b = "integer" THEN <<<<y[1]>>>> ELSE <<y>>
RECURSIVE Sets(_, _, _)
Sets(X, ss, V0) == IF ss = <<>> THEN V0
  ELSE LET s == Head(ss) IN Sets(X, Tail(ss), [V0 EXCEPT ![s.v] = Apply(X.vars[s.v].base, s.act, V0[s.v], s.k)])
RECURSIVE Run(_, _, _, _, _)
Run(X, cs, R, V0, fb) ==
  IF cs = <<>> THEN [v |-> V0, fb |-> fb]
  ELSE LET c == Head(cs)
           hit == Test(X, [op |-> "and", kids |-> c.tests], R) = T
           V1 == IF hit THEN Sets(X, c.sets, V0) ELSE V0
           f1 == IF hit THEN fb \o [i \in 1..Len(c.fb) |-> FIdent(X.fbs[c.fb[i]].id)] ELSE fb IN
       IF hit /\ c.cont = 0 THEN [v |-> V1, fb |-> f1] ELSE Run(X, Tail(cs), R, V1, f1)
Start(v) == IF v.def # <<>> THEN v.def ELSE IF v.base = "integer" THEN <<<<0>>>> ELSE IF v.base = "float" THEN <<<<0, 1>>>> ELSE <<>>
Score(X, R) == Run(X, X.conds, R, [i \in 1..Len(X.vars) |-> Start(X.vars[i])], <<>>)

(* The conditions as version 2 rules: conditions without continue become the branches of one if / else-if,  *)
(* whatever follows them its else.  MCMigrate checks that the rules that fire are the same.                 *)
RECURSIVE Stops(_)
Stops(cs) == IF cs = <<>> \/ Head(cs).cont = 1 THEN 0 ELSE 1 + Stops(Tail(cs))
RECURSIVE Nest(_)
Nest(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET k == Stops(cs) IN
       IF k = 0 THEN <<[if |-> <<Head(cs)>>, else |-> <<>>]>> \o Nest(Tail(cs))
       ELSE <<[if |-> SubSeq(cs, 1, k), else |-> Nest(SubSeq(cs, k + 1, Len(cs)))]>>
RECURSIVE Fire(_)
Fire(rs) ==
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs)  hs == {j \in 1..Len(r.if) : r.if[j].hit} IN
       (IF hs = {} THEN Fire(r.else) ELSE <<r.if[CHOOSE j \in hs : \A k \in hs : j <= k].n>>) \o Fire(Tail(rs))
RECURSIVE Taken(_)
Taken(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET c == Head(cs) IN
       IF c.hit THEN <<c.n>> \o (IF c.cont = 1 THEN Taken(Tail(cs)) ELSE <<>>) ELSE Taken(Tail(cs))
=============================================================================
