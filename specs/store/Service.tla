------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* The REST interface of an OData 2 service as a state machine: a request  *)
(* (abstracted from its URI, headers and body) and the state of the store  *)
(* determine the admissible status codes, the admissible next states and   *)
(* what the response must say.  Changes of existence and of links are      *)
(* those of EntityStore.                                                   *)
(*                                                                         *)
(* Values are sequences of numbers: <<>> is null, <<1,n>> a number,        *)
(* <<2,c1,..>> a string, <<3,b1,..>> binary; keys are sequences of values. *)
(* A row is the sequence of the values of the properties of its set.       *)
(*   st = [e |-> sequence of functions from key to row (one for each set), *)
(*         l |-> sequence of sets of links (one for each association),     *)
(*         m |-> function from the keys of media entities to their stream] *)
(***************************************************************************)
EXTENDS EntityStore

CONSTANTS Sc,      \* the schema, as in EntityStore
          SetN,    \* names of the sets
          Props,   \* for each set the names of its properties, keys first
          NKey,    \* for each set how many of them make the key
          NavN,    \* for each set the names of the navigations of NavSeq
          Tok,     \* for each set the number of its concurrency token, or 0
          Media,   \* for each set whether its entities have streams
          Cx,      \* for each set the name of its complex property, or ""
          CxF,     \* and the numbers of the properties in it
          NotNull  \* for each set the numbers of properties never null

ABS == <<9>>       \* value left out
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
RECURSIVE KeyLt(_, _)
KeyLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN LexLt(a[1], b[1]) ELSE KeyLt(Tail(a), Tail(b))
IndexIn(q, x) == LET s == {i \in 1..Len(q) : q[i] = x} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
KeyOfRow(s, v) == SubSeq(v, 1, NKey[s])
Has(st, s, k) == k \in DOMAIN st.e[s]
Range0(q) == {q[i] : i \in 1..Len(q)}

(***************** the store seen as an EntityStore state ******************)
\* keys: a set of further keys <<set, key>> that are to be in its domain
AsStore(st, keys) ==
  [e |-> [s \in 1..Sc.n |-> [k \in DOMAIN st.e[s] \cup {x[2] : x \in {y \in keys : y[1] = s}} |->
            IF Has(st, s, k) THEN 0 ELSE ABSENT]],
   l |-> st.l]
\* the state after an EntityStore operation, given the rows of the new entities as a set of <<set,row>>
FromStore(st, es, new) ==
  [e |-> [s \in 1..Sc.n |-> [k \in {x \in DOMAIN es.e[s] : es.e[s][x] # ABSENT} |->
            IF Has(st, s, k) THEN st.e[s][k]
            ELSE (CHOOSE x \in new : x[1] = s /\ KeyOfRow(s, x[2]) = k)[2]]],
   l |-> es.l,
   m |-> [x \in {y \in DOMAIN st.m : es.e[y[1]][y[2]] # ABSENT} |-> st.m[x]]]

(************************ what a path stands for ***************************)
NavAt(s, n) == LET i == IndexIn(NavN[s], n) IN IF i = 0 THEN NOEND ELSE NavSeq(Sc, s)[i]
Tgts(st, n, k) == Targets(AsStore(st, {}), n, k)
NoRes(t) == [t |-> t, s |-> 0, k |-> <<>>, p |-> 0, n |-> NOEND]
\* t: "root", "set" (n # NOEND: the targets of n from k), "ent", "cx", "prop", "none" (an empty
\* navigation to one entity), "404", "4xx"; n of an entity or of "none" is the last navigation
\* followed and k0 the key of where it started
Step(st, r, g) ==
  CASE r.t \in {"404", "4xx"} -> r
    [] r.t = "root" ->
         LET s == IndexIn(SetN, g.n) IN
         IF s = 0 THEN NoRes("404")
         ELSE IF g.kp = 0 THEN [t |-> "set", s |-> s, k |-> <<>>, p |-> 0, n |-> NOEND]
         ELSE IF g.kp = 2 THEN NoRes("4xx")
         ELSE IF Has(st, s, g.k) THEN [t |-> "ent", s |-> s, k |-> g.k, p |-> 0, n |-> NOEND]
         ELSE NoRes("404")
    [] r.t \in {"set", "prop"} -> NoRes("4xx")
    [] r.t = "none" -> NoRes("404")
    [] r.t = "cx" ->
         LET c == {i \in CxF[r.s] : Props[r.s][i] = Cx[r.s] \o "." \o g.n} IN
         IF c = {} THEN NoRes("404")
         ELSE IF g.kp # 0 THEN NoRes("4xx")
         ELSE [r EXCEPT !.t = "prop", !.p = CHOOSE i \in c : TRUE]
    [] r.t = "ent" ->
         LET n == NavAt(r.s, g.n) i == IndexIn(Props[r.s], g.n) IN
         IF n # NOEND THEN
           LET ts == Tgts(st, n, r.k) IN
           IF TgtM(Sc, n) = "*" THEN
             IF g.kp = 0 THEN [t |-> "set", s |-> Tgt(Sc, n), k |-> r.k, p |-> 0, n |-> n]
             ELSE IF g.kp = 2 THEN NoRes("4xx")
             ELSE IF g.k \in ts THEN [t |-> "ent", s |-> Tgt(Sc, n), k |-> g.k, p |-> 0, n |-> n]
             ELSE NoRes("404")
           ELSE IF g.kp # 0 THEN NoRes("4xx")
           ELSE IF ts = {} THEN [t |-> "none", s |-> Tgt(Sc, n), k |-> r.k, p |-> 0, n |-> n]
           ELSE [t |-> "ent", s |-> Tgt(Sc, n), k |-> CHOOSE x \in ts : TRUE, p |-> 0, n |-> n]
         ELSE IF g.kp # 0 THEN NoRes("4xx")
         ELSE IF g.n = Cx[r.s] THEN [r EXCEPT !.t = "cx", !.n = NOEND]
         ELSE IF i # 0 /\ i \notin CxF[r.s] THEN [r EXCEPT !.t = "prop", !.p = i, !.n = NOEND]
         ELSE NoRes("404")
RECURSIVE Walk(_, _, _, _)
Walk(st, r, segs, i) == IF i > Len(segs) THEN r ELSE Walk(st, Step(st, r, segs[i]), segs, i + 1)
Resolve(st, segs) == Walk(st, NoRes("root"), segs, 1)

(****************************** queries ************************************)
Val(s, row, p) == row[IndexIn(Props[s], p)]
Pass(s, row, f) ==
  LET v == Val(s, row, f.p) IN
  CASE f.op = "eq" -> v = f.v
    [] f.op = "ne" -> v # f.v
    [] f.op = "lt" -> v # <<>> /\ LexLt(v, f.v)
    [] f.op = "ge" -> v # <<>> /\ ~LexLt(v, f.v)
\* filters are conjunctions
Passes(s, row, fs) == \A i \in 1..Len(fs) : Pass(s, row, fs[i])
RECURSIVE OrdLt(_, _, _, _, _)
\* strictly before by the order rules alone (negative: after; 0: tie)
OrdLt(s, a, b, o, i) ==
  IF i > Len(o) THEN 0
  ELSE LET x == Val(s, a, o[i].p) y == Val(s, b, o[i].p) IN
       IF x = y THEN OrdLt(s, a, b, o, i + 1)
       ELSE IF LexLt(x, y) = (o[i].d = 0) THEN 1 ELSE 0 - 1
RowLt(s, a, b, o) == LET c == OrdLt(s, a, b, o, 1) IN c = 1 \/ (c = 0 /\ KeyLt(KeyOfRow(s, a), KeyOfRow(s, b)))
RowsOf(st, r) ==
  IF r.n = NOEND THEN {st.e[r.s][k] : k \in DOMAIN st.e[r.s]}
  ELSE {st.e[r.s][k] : k \in Tgts(st, r.n, r.k)}
Filtered(st, r, q) == {v \in RowsOf(st, r) : Passes(r.s, v, q.f)}
Sorted(s, rows, o) == SetToSortSeq(rows, LAMBDA a, b : RowLt(s, a, b, o))
Paged(sq, q) ==
  LET a == IF q.skip < 0 THEN sq ELSE SubSeq(sq, q.skip + 1, Len(sq)) IN
  IF q.top < 0 THEN a ELSE SubSeq(a, 1, IF q.top < Len(a) THEN q.top ELSE Len(a))

(****************************** entries ************************************)
\* sel: set of paths (empty: everything); ex: set of paths
Sub(ps, n) == {Tail(p) : p \in {x \in ps : Len(x) > 1 /\ x[1] = n}}
Heads(ps) == {p[1] : p \in ps}
\* "all": the names with nothing following, which select everything below
SelProps(s, sel) ==
  {i \in 1..Len(Props[s]) : sel = {} \/ <<"*">> \in sel \/ <<Props[s][i]>> \in sel
                             \/ (i \in CxF[s] /\ <<Cx[s]>> \in sel)}
SelNavs(s, sel) == {n \in Range0(NavN[s]) : sel = {} \/ n \in Heads(sel)}
RECURSIVE Entry(_, _, _, _, _)
Entry(st, s, k, sel, ex) ==
  [s |-> s, k |-> k,
   v |-> {<<Props[s][i], st.e[s][k][i]>> : i \in SelProps(s, sel)},
   x |-> {LET n == NavAt(s, nm)
              ts == Tgts(st, n, k)
              sb == IF <<nm>> \in sel THEN {} ELSE Sub(sel, nm) IN
          <<nm, Cardinality(ts), {Entry(st, Tgt(Sc, n), t, sb, Sub(ex, nm)) : t \in ts}>> :
            nm \in {y \in Heads(ex) : y \in SelNavs(s, sel)}}]
\* the entry as found in a response, with unselected keys left out: they may be there
RECURSIVE Found(_, _, _)
Found(e, sel, loose) ==
  [s |-> e.s, k |-> e.k,
   v |-> {x \in Range0(e.v) : \/ sel = {} \/ <<"*">> \in sel \/ <<x[1]>> \in sel
                              \/ IndexIn(Props[e.s], x[1]) \in CxF[e.s]
                              \/ (IndexIn(Props[e.s], x[1]) > NKey[e.s] /\ ~(Media[e.s] /\ x[1] = "Title"))},
   x |-> {<<y[1], Len(y[2]), {Found(y[2][i], IF <<y[1]>> \in sel THEN {} ELSE Sub(sel, y[1]), loose) : i \in 1..Len(y[2])}>> :
            \* what is expanded but not selected may be there too
            y \in {z \in Range0(e.x) : z[1] \in SelNavs(e.s, sel)}}]
\* where nothing tells null from the empty string (values mapped to elements of the feed)
Squash(x) == {IF p[2] = <<2>> THEN <<p[1], <<>>>> ELSE p : p \in x}
RECURSIVE SameEntry(_, _)
SameEntry(a, b) ==
  /\ a.s = b.s /\ a.k = b.k
  /\ IF Media[a.s] THEN Squash(a.v) = Squash(b.v) ELSE a.v = b.v
  /\ {<<y[1], y[2]>> : y \in a.x} = {<<y[1], y[2]>> : y \in b.x}
  /\ \A y \in a.x : LET z == CHOOSE w \in b.x : w[1] = y[1] IN
        /\ \A e \in y[3] : \E f \in z[3] : SameEntry(e, f)
        /\ \A f \in z[3] : \E e \in y[3] : SameEntry(e, f)
\* a tag may be missing where there is no token, it is null or not selected
NoTok(s, row, sel) == Tok[s] = 0 \/ row[Tok[s]] = <<>> \/ Tok[s] \notin SelProps(s, sel)
TokOf(s, row) == IF Tok[s] = 0 THEN <<>> ELSE row[Tok[s]]
\* every tag, deferred link and stream link in an entry of a response
RECURSIVE Linked(_, _, _, _)
Linked(st, e, sel, json) ==
  /\ \/ Tok[e.s] # 0 /\ e.e = TokOf(e.s, st.e[e.s][e.k])
     \/ e.e = ABS /\ (~json \/ NoTok(e.s, st.e[e.s][e.k], sel))
  /\ \A i \in 1..Len(e.d) : e.d[i].s = e.s /\ e.d[i].k = e.k /\ e.d[i].n \in Range0(NavN[e.s])
  /\ LET ds == {e.d[i].n : i \in 1..Len(e.d)} xs == {e.x[i][1] : i \in 1..Len(e.x)} IN
     IF json THEN ds \cup xs = SelNavs(e.s, sel) /\ ds \cap xs = {} ELSE SelNavs(e.s, sel) \subseteq ds
  /\ e.src = IF Media[e.s] THEN 1 ELSE 0
  /\ \A i \in 1..Len(e.x) : \A j \in 1..Len(e.x[i][2]) :
        \* selecting what is expanded selects its values, and perhaps its links
        IF <<e.x[i][1]>> \in sel
        THEN Linked(st, e.x[i][2][j], {}, json) \/ Linked(st, e.x[i][2][j], {<<"*">>}, json)
        ELSE Linked(st, e.x[i][2][j], Sub(sel, e.x[i][1]), json)

(****************************** changes ************************************)
\* all new entities of a body: b is parallel to NavSeq(s), of [t |-> "key", k] or [t |-> "new", v, b]
Fill(v) == [i \in 1..Len(v) |-> IF v[i] = ABS THEN <<>> ELSE v[i]]
RECURSIVE News(_, _, _)
News(s, v, b) ==
  {<<s, Fill(v)>>} \cup
  UNION {UNION {IF b[i][j].t = "new" THEN News(Tgt(Sc, NavSeq(Sc, s)[i]), b[i][j].v, b[i][j].b) ELSE {} :
                  j \in 1..Len(b[i])} : i \in 1..Len(b)}
RECURSIVE BindKeys(_, _)
BindKeys(s, b) ==
  UNION {UNION {IF b[i][j].t = "key" THEN {<<Tgt(Sc, NavSeq(Sc, s)[i]), b[i][j].k>>}
                ELSE BindKeys(Tgt(Sc, NavSeq(Sc, s)[i]), b[i][j].b) :
                  j \in 1..Len(b[i])} : i \in 1..Len(b)}
RECURSIVE StoreB(_, _)
StoreB(s, b) ==
  [i \in 1..Len(b) |-> [j \in 1..Len(b[i]) |->
     LET t == Tgt(Sc, NavSeq(Sc, s)[i]) IN
     IF b[i][j].t = "key" THEN [t |-> "key", k |-> b[i][j].k]
     ELSE [t |-> "new", k |-> KeyOfRow(t, Fill(b[i][j].v)), v |-> 0, b |-> StoreB(t, b[i][j].b)]]]
Broken(s, v) == \E i \in 1..Len(v) : v[i] = <<8>>       \* a value of the wrong type
BrokenNews(new) == \E x \in new : Broken(x[1], x[2])
NullKey(new) == \E x \in new : \E i \in 1..NKey[x[1]] : x[2][i] = <<>>
NullNeeded(new) == \E x \in new : \E i \in NotNull[x[1]] : x[2][i] = <<>>
\* a refusal (any client error), or a result with its code
Refuse == [codes |-> 400..499, sts |-> {}, key |-> <<>>]
Missing == [codes |-> {404}, sts |-> {}, key |-> <<>>]
Insertion(st, s, body, n, from) ==
  LET new == News(s, body.v, body.b)
      k == KeyOfRow(s, Fill(body.v))
      dom == {<<x[1], KeyOfRow(x[1], x[2])>> : x \in new} \cup BindKeys(s, body.b)
      es == AsStore(st, dom)
      r == IF n = NOEND THEN Insert(Sc, es, s, k, 0, StoreB(s, body.b), NOEND)
           ELSE NavInsert(Sc, es, n, from, k, 0, StoreB(s, body.b)) IN
  \* whether an entity that the request makes can be linked to in the same request is left open
  IF BindKeys(s, body.b) \cap {<<x[1], KeyOfRow(x[1], x[2])>> : x \in new} # {} THEN
    IF r.err # "ok" THEN Refuse ELSE [codes |-> {201} \cup 400..499, sts |-> {FromStore(st, r.st, new)}, key |-> k]
  ELSE IF r.err # "ok" THEN Refuse
  ELSE [codes |-> {201}, sts |-> {FromStore(st, r.st, new)}, key |-> k]
SetRow(st, s, k, v) == [st EXCEPT !.e[s][k] = v]
\* rows that a PUT of body v may leave: values left out keep what they were or become null
\* (nothing tells a title that is left out, null or empty)
PutRows(s, old, v) ==
  {[i \in 1..Len(v) |-> IF i <= NKey[s] THEN old[i] ELSE IF Media[s] /\ Props[s][i] = "Title" /\ v[i] \in {ABS, <<>>, <<2>>} /\ c[1] > 0
                                 THEN (IF c[1] = 1 THEN <<2>> ELSE <<>>)
                                 ELSE IF v[i] = ABS THEN (IF c[2] = 0 THEN old[i] ELSE <<>>) ELSE v[i]] : c \in (0..2) \X (0..1)}
Updating(st, r, body) ==
  LET es == AsStore(st, BindKeys(r.s, body.b))
      q == Update(Sc, es, r.s, r.k, 0, StoreB(r.s, body.b))
      old == st.e[r.s][r.k] IN
  IF q.err # "ok" THEN Refuse
  ELSE [codes |-> {204} \cup (IF \E i \in NotNull[r.s] : body.v[i] = ABS THEN 400..499 ELSE {}), key |-> <<>>,
        sts |-> {SetRow([st EXCEPT !.l = q.st.l], r.s, r.k, v) :
                   v \in {x \in PutRows(r.s, old, body.v) : \A i \in NotNull[r.s] : x[i] # <<>>}}]
Result(st, q, code) == IF q.err # "ok" THEN Refuse ELSE [codes |-> {code}, sts |-> {FromStore(st, q.st, {})}, key |-> <<>>]

Either(a, b) == [codes |-> a.codes \cup b.codes, sts |-> a.sts \cup b.sts, key |-> a.key]
\* a path with a malformed key may be refused before it is followed
Malformed(rq) == \E i \in 1..Len(rq.segs) : rq.segs[i].kp = 2
(* What may come of a request that changes the store: when the code is an   *)
(* error the state must not change, otherwise it must be one of sts.        *)
Write(st, rq) ==
  LET r == Resolve(st, rq.segs)
      b == rq.body
      val == b.v IN
  IF r.t = "4xx" THEN Refuse
  ELSE IF r.t = "404" THEN (IF rq.bad = 1 \/ Malformed(rq) THEN Refuse ELSE Missing)
  ELSE IF rq.opt = "links" THEN
    \* the path leads to the source, rq.nav is the navigation
    LET n == IF r.t = "ent" THEN NavAt(r.s, rq.nav.n) ELSE NOEND IN
    IF n = NOEND \/ rq.bad = 1 THEN Refuse
    ELSE LET tk == b.to.k
             ok == b.to.s = Tgt(Sc, n) /\ Has(st, b.to.s, tk)
             es == AsStore(st, {}) IN
    CASE rq.m = "POST" /\ rq.nav.kp = 0 ->
           IF ~ok THEN Refuse
           ELSE IF TgtM(Sc, n) # "*" /\ Targets(es, n, r.k) # {} THEN Refuse
           ELSE Result(st, NavSet(Sc, es, n, r.k, tk), 204)
      [] rq.m = "PUT" /\ rq.nav.kp = 0 ->
           IF TgtM(Sc, n) = "*" \/ ~ok THEN Refuse
           ELSE Result(st, NavReplace(Sc, es, n, r.k, tk), 204)
      [] rq.m = "DELETE" /\ TgtM(Sc, n) = "*" /\ rq.nav.kp = 1 ->
           IF rq.nav.k \notin Targets(es, n, r.k) THEN Missing
           ELSE Result(st, NavDel(Sc, es, n, r.k, rq.nav.k), 204)
      [] rq.m = "DELETE" /\ TgtM(Sc, n) # "*" /\ rq.nav.kp = 0 ->
           IF Targets(es, n, r.k) = {} THEN Missing
           ELSE Result(st, NavDel(Sc, es, n, r.k, CHOOSE x \in Targets(es, n, r.k) : TRUE), 204)
      [] OTHER -> Refuse
  ELSE IF rq.bad = 1 THEN Refuse
  ELSE IF r.t = "none" THEN Missing
  ELSE IF rq.opt = "" /\ r.t = "set" /\ rq.m = "POST" THEN
    IF Media[r.s] THEN
      IF b.t # "stream" \/ r.n # NOEND THEN [codes |-> {-1}, sts |-> {}, key |-> <<>>]   \* not generated
      ELSE [codes |-> {201}, sts |-> {}, key |-> <<>>]                                   \* see Posted
    ELSE IF b.t # "ent" THEN Refuse
    ELSE IF BrokenNews(News(r.s, b.v, b.b)) \/ NullKey(News(r.s, b.v, b.b)) THEN Refuse
    ELSE IF NullNeeded(News(r.s, b.v, b.b)) THEN Refuse
    ELSE Insertion(st, r.s, b, r.n, r.k)
  ELSE IF rq.opt = "" /\ r.t = "ent" /\ rq.m = "PUT" THEN
    IF b.t # "ent" \/ (\E i \in (NKey[r.s] + 1)..Len(b.v) : b.v[i] = <<8>> \/ (b.v[i] = <<>> /\ i \in NotNull[r.s])) THEN Refuse
    \* a body that names another key is refused or has its key ignored
    ELSE LET u == Updating(st, r, b) IN
         IF \E i \in 1..NKey[r.s] : b.v[i] \notin {ABS, r.k[i]} THEN Either(u, Refuse) ELSE u
  ELSE IF rq.opt = "" /\ r.t = "ent" /\ rq.m = "DELETE" THEN
    Result(st, Delete(Sc, AsStore(st, {}), r.s, r.k), 204)
  ELSE IF r.t = "prop" /\ rq.m = "PUT" THEN
    LET old == st.e[r.s][r.k]
        ok == [codes |-> {204}, sts |-> {SetRow(st, r.s, r.k, [old EXCEPT ![r.p] = val])}, key |-> <<>>] IN
    IF rq.opt = "value" THEN
      IF b.t # "raw" THEN Refuse
      ELSE IF old[r.p] = <<>> THEN Either(Missing, ok)
      ELSE IF val = <<8>> THEN Refuse
      ELSE IF r.p <= NKey[r.s] THEN (IF val = old[r.p] THEN Either(ok, Refuse) ELSE Refuse)
      ELSE ok
    ELSE IF rq.opt # "" \/ b.t # "prop" \/ val = <<8>> THEN Refuse
    ELSE IF r.p <= NKey[r.s] THEN (IF val = old[r.p] THEN Either(ok, Refuse) ELSE Refuse)
    ELSE IF val = <<>> /\ r.p \in NotNull[r.s] THEN Refuse
    ELSE ok
  ELSE IF r.t = "prop" /\ rq.m = "DELETE" THEN
    IF rq.opt # "" \/ r.p <= NKey[r.s] \/ r.p \in NotNull[r.s] THEN Refuse
    ELSE [codes |-> {204}, sts |-> {SetRow(st, r.s, r.k, [st.e[r.s][r.k] EXCEPT ![r.p] = <<>>])}, key |-> <<>>]
  ELSE IF rq.opt = "" /\ r.t = "cx" /\ rq.m = "PUT" THEN
    IF b.t # "cx" \/ Broken(r.s, b.v) THEN Refuse
    \* the values are those of the fields in the order of their numbers; what is left out is kept or null
    ELSE LET old == st.e[r.s][r.k] fs == SortedSeq(CxF[r.s]) IN
         [codes |-> {204}, key |-> <<>>,
          sts |-> {SetRow(st, r.s, r.k, [i \in 1..Len(old) |->
                     IF i \notin CxF[r.s] THEN old[i]
                     ELSE LET x == b.v[IndexIn(fs, i)] IN IF x = ABS THEN (IF c = 0 THEN old[i] ELSE <<>>) ELSE x]) : c \in {0, 1}}]
  ELSE IF rq.opt = "value" /\ r.t = "ent" /\ rq.m = "PUT" THEN
    IF ~Media[r.s] THEN Refuse
    ELSE [codes |-> {204}, sts |-> {}, key |-> <<>>]                                     \* see Posted
  ELSE Refuse

(* The state left by a request that writes a stream: the token is a new one *)
(* that goes with the bytes; a new entity has a fresh key.                  *)
Streamed(st, rq, st2, title) ==
  LET r == Resolve(st, rq.segs)
      s == r.s
      made == {k \in DOMAIN st2.e[s] : ~Has(st, s, k)} IN
  /\ st2.l = st.l
  /\ \A t \in 1..Sc.n : t # s => st2.e[t] = st.e[t]
  /\ IF rq.m = "PUT" THEN
       /\ made = {}
       /\ DOMAIN st2.e[s] = DOMAIN st.e[s]
       /\ \A k \in DOMAIN st.e[s] : IF k = r.k THEN \A i \in 1..Len(Props[s]) : i # Tok[s] => st2.e[s][k][i] = st.e[s][k][i]
                                    ELSE st2.e[s][k] = st.e[s][k]
       /\ st2.m = [x \in DOMAIN st.m |-> IF x = <<s, r.k>> THEN rq.body.str ELSE st.m[x]]
     ELSE
       /\ Cardinality(made) = 1
       /\ \A k \in DOMAIN st.e[s] : Has(st2, s, k) /\ st2.e[s][k] = st.e[s][k]
       /\ LET k == CHOOSE x \in made : TRUE IN
          /\ st2.m = [x \in DOMAIN st.m \cup {<<s, k>>} |-> IF x = <<s, k>> THEN rq.body.str ELSE st.m[x]]
          /\ \A i \in (NKey[s] + 1)..Len(Props[s]) : i # Tok[s] => st2.e[s][k][i] = (IF Props[s][i] = "Title" THEN title ELSE <<>>)
=============================================================================
