---------------------------- MODULE ServiceTrace ----------------------------
(* Judges recorded requests, each with the store before and after, against Service. *)
EXTENDS Service, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VQ_LOG)
VARIABLE i
W == 64
Init == i \in 1..(IF W < Len(Log) THEN W ELSE Len(Log))
Next == i + W <= Len(Log) /\ i' = i + W

\* the schema of the driver: see lib/svcgen.py
MSc == [n |-> 4, a |-> <<[f |-> 2, t |-> 1, fm |-> "*", tm |-> "?", fn |-> TRUE, tn |-> TRUE],
                         [f |-> 3, t |-> 2, fm |-> "*", tm |-> "1", fn |-> TRUE, tn |-> TRUE],
                         [f |-> 1, t |-> 4, fm |-> "?", tm |-> "?", fn |-> TRUE, tn |-> TRUE]>>]
MSetN == <<"Customers", "Orders", "Lines", "Docs">>
MProps == <<<<"CID", "Name", "Rank", "Addr.Street", "Addr.City", "Ver">>, <<"OID", "Note", "Qty">>,
            <<"OID", "Num", "Text">>, <<"DID", "Title", "Ver">>>>
MNKey == <<1, 1, 2, 1>>
MNavN == <<<<"Orders", "Photo">>, <<"Customer", "Lines">>, <<"Order">>, <<"Owner">>>>
MTok == <<6, 0, 0, 3>>
MMedia == <<FALSE, FALSE, FALSE, TRUE>>
MCx == <<"Addr", "-", "-", "-">>
MCxF == <<{4, 5}, {}, {}, {}>>
MNotNull == <<{1}, {1, 3}, {1, 2}, {1}>>

St(v) == [e |-> [s \in 1..Sc.n |-> [k \in {KeyOfRow(s, r) : r \in Range0(v.e[s])} |->
                   CHOOSE r \in Range0(v.e[s]) : KeyOfRow(s, r) = k]],
          l |-> [a \in 1..Len(Sc.a) |-> {<<p[1], p[2]>> : p \in Range0(v.l[a])}],
          m |-> [x \in {<<p[1], p[2]>> : p \in Range0(v.m)} |->
                   (CHOOSE p \in Range0(v.m) : <<p[1], p[2]>> = x)[3]]]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Plain(v) == IF v[1] = 1 THEN (IF v[2] = (0 - 2147483647) - 1 THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
                              ELSE IF v[2] < 0 THEN <<45>> \o Digits(0 - v[2]) ELSE Digits(v[2])) ELSE Tail(v)
Sel(q) == Range0(q.sel)
Exp(q) == Range0(q.exp)
Json0(rq) == rq.fmt = "json"

\* complaints about the items of a feed
Feed(st, r, q, rs, json) ==
  LET all == Filtered(st, r, q)
      want == Paged(Sorted(r.s, all, q.o), q)
      paging == q.top >= 0 \/ q.skip >= 0 \/ rs.pages > 1
      got == rs.items
      ent(v) == Entry(st, r.s, KeyOfRow(r.s, v), Sel(q), Exp(q))
      fnd(x) == Found(x, Sel(q), 0)
      is(x, v) == x.s = r.s /\ x.k = KeyOfRow(r.s, v) IN
  (IF Len(got) # Len(want) THEN {"number of entries"}
   ELSE IF paging THEN (IF \A j \in 1..Len(got) : is(got[j], want[j]) THEN {} ELSE {"entries, or their order"})
   ELSE IF \E j \in 1..Len(want) : ~\E m \in 1..Len(got) : is(got[m], want[j]) THEN {"entries"}
   ELSE IF \E j \in 1..(Len(got) - 1) : OrdLt(r.s, st.e[r.s][got[j].k], st.e[r.s][got[j + 1].k], q.o, 1) < 0 THEN {"order"}
   ELSE {})
  \cup (IF \E j \in 1..Len(got) : ~Has(st, r.s, got[j].k) \/ got[j].s # r.s THEN {"unknown entry"}
        ELSE IF \E j \in 1..Len(got) : ~SameEntry(fnd(got[j]), ent(st.e[r.s][got[j].k])) THEN {"contents of an entry"}
        ELSE IF \E j \in 1..Len(got) : ~Linked(st, got[j], Sel(q), json) THEN {"tags or links of an entry"} ELSE {})
  \cup (IF q.cnt = 1 THEN (IF rs.cnt = Cardinality(all) \/ (json /\ rs.ver = 1) THEN {} ELSE {"count"})
        ELSE IF rs.cnt = -1 THEN {} ELSE {"unwanted count"})

One(st, s, k, rq, rs) ==
  IF Len(rs.items) # 1 THEN {"one entry"}
  ELSE LET e == rs.items[1] IN
  IF e.s # s \/ e.k # k \/ ~SameEntry(Found(e, Sel(rq.q), 0), Entry(st, s, k, Sel(rq.q), Exp(rq.q))) THEN {"contents of the entry"}
  ELSE IF ~Linked(st, e, Sel(rq.q), Json0(rq)) THEN {"tags or links of the entry"} ELSE {}
Tag(st, s, k, sel, rs) == IF (Tok[s] # 0 /\ rs.etag = TokOf(s, st.e[s][k]))
                             \/ (rs.etag = ABS /\ NoTok(s, st.e[s][k], sel)) THEN {} ELSE {"ETag"}
KeysOf(seq) == [j \in 1..Len(seq) |-> seq[j].k]

Is(rs, code, t) == IF rs.code # code THEN {"code " \o ToString(code)} ELSE IF rs.t # t THEN {"a body that is " \o t} ELSE {}
Client(rs) == IF rs.code \in 400..499 THEN {} ELSE {"a client error"}
NotFound(rs) == IF rs.code = 404 THEN {} ELSE {"code 404"}
Then(c, f) == IF c # {} THEN c ELSE f

\* options that only make sense for sets
SetOpts(q) == q.o # <<>> \/ q.top # -1 \/ q.skip # -1 \/ q.cnt # 0
Get(st, rq, rs) ==
  LET r == Resolve(st, rq.segs) IN
  IF r.t = "4xx" \/ rq.bad = 1 THEN Client(rs)
  ELSE IF r.t = "404" THEN (IF Malformed(rq) THEN Client(rs) ELSE NotFound(rs))
  ELSE IF rq.opt = "links" THEN
    LET n == IF r.t = "ent" THEN NavAt(r.s, rq.nav.n) ELSE NOEND
        ts == Tgts(st, n, r.k)
        t == Tgt(Sc, n) IN
    IF n = NOEND THEN Client(rs)
    ELSE IF TgtM(Sc, n) # "*" /\ ts = {} THEN NotFound(rs)
    ELSE IF rq.acc = 1 THEN (IF rs.code = 406 THEN {} ELSE {"code 406"})
    ELSE IF TgtM(Sc, n) = "*" THEN
      Then(Is(rs, 200, "links"),
        LET paging == rq.q.top >= 0 \/ rq.q.skip >= 0
            want == [j \in 1..Cardinality(ts) |-> SetToSortSeq(ts, KeyLt)[j]]
            w2 == Paged(want, rq.q) IN
        (IF \E j \in 1..Len(rs.items) : rs.items[j].s # t THEN {"set of a link"} ELSE {})
        \cup (IF paging THEN (IF KeysOf(rs.items) = w2 THEN {} ELSE {"links, or their order"})
              ELSE IF Range0(KeysOf(rs.items)) = ts /\ Len(rs.items) = Cardinality(ts) THEN {} ELSE {"links"})
        \cup (IF rq.q.cnt = 1 /\ Json0(rq) /\ rs.ver = 2 /\ rs.cnt # Cardinality(ts) THEN {"count"}
              ELSE IF rq.q.cnt # 1 /\ rs.cnt # -1 THEN {"unwanted count"} ELSE {}))
    ELSE Then(Is(rs, 200, "link"), IF rs.items[1].s = t /\ rs.items[1].k \in ts THEN {} ELSE {"link"})
  ELSE IF rq.opt = "count" THEN
    CASE r.t = "set" -> IF rq.acc = 1 THEN (IF rs.code = 406 THEN {} ELSE {"code 406"})
                        ELSE Then(Is(rs, 200, "text"),
                           LET n == Cardinality(Filtered(st, r, rq.q)) IN
                           IF rs.val \in {Digits(n), Digits(Len(Paged(SetToSeq(Filtered(st, r, rq.q)), rq.q)))} THEN {} ELSE {"count"})
      [] r.t = "ent" -> IF rq.acc = 1 THEN (IF rs.code = 406 THEN {} ELSE {"code 406"})
                        ELSE Then(Is(rs, 200, "text"), IF rs.val = <<49>> THEN {} ELSE {"count"})
      [] OTHER -> Client(rs)
  ELSE IF r.t = "none" THEN NotFound(rs)
  ELSE IF r.t = "ent" /\ SetOpts(rq.q) THEN Client(rs)
  ELSE IF rq.opt = "value" THEN
    CASE r.t = "prop" ->
           LET v == st.e[r.s][r.k][r.p] IN
           IF v = <<>> THEN NotFound(rs)
           ELSE IF rq.acc = 1 THEN (IF rs.code = 406 THEN {} ELSE {"code 406"})
           ELSE Then(Is(rs, 200, IF v[1] = 3 THEN "bytes" ELSE "text"), (IF rs.val = Plain(v) THEN {} ELSE {"value"}) \cup Tag(st, r.s, r.k, {}, rs))
      [] r.t = "ent" /\ Media[r.s] ->
           IF rq.acc = 1 THEN {}
           ELSE Then(IF rs.code = 200 THEN {} ELSE {"code 200"},
             (IF rs.ctype = st.m[<<r.s, r.k>>][1] \/ rq.q.fmtopt = 1 THEN {} ELSE {"type of the stream"})
             \cup (IF rs.raw = st.m[<<r.s, r.k>>][2] THEN {} ELSE {"stream"}) \cup Tag(st, r.s, r.k, {}, rs))
      [] OTHER -> Client(rs)
  ELSE IF rq.acc = 1 THEN (IF rs.code = 406 THEN {} ELSE {"code 406"})
  ELSE CASE r.t = "set" -> Then(Is(rs, 200, "feed"), Feed(st, r, rq.q, rs, Json0(rq)) \cup (IF rs.etag = ABS THEN {} ELSE {"ETag of a set"}))
    [] r.t = "ent" -> Then(Is(rs, 200, "entry"), One(st, r.s, r.k, rq, rs) \cup Tag(st, r.s, r.k, Sel(rq.q), rs))
    [] r.t = "prop" -> Then(Is(rs, 200, "prop"),
         (IF rs.name = Props[r.s][r.p] \/ (Cx[r.s] \o "." \o rs.name) = Props[r.s][r.p] THEN {} ELSE {"name"})
         \cup (IF rs.val = st.e[r.s][r.k][r.p] THEN {} ELSE {"value"}) \cup Tag(st, r.s, r.k, {}, rs))
    [] r.t = "cx" -> Then(Is(rs, 200, "cx"),
         (IF rs.name = Cx[r.s] THEN {} ELSE {"name"})
         \cup (IF {<<Cx[r.s] \o "." \o x[1], x[2]>> : x \in Range0(rs.fields)}
                  = {<<Props[r.s][p], st.e[r.s][r.k][p]>> : p \in CxF[r.s]} THEN {} ELSE {"values"}) \cup Tag(st, r.s, r.k, {}, rs))
    [] r.t = "root" -> Then(Is(rs, 200, "service"), IF Range0(rs.names) = Range0(SetN) /\ Len(rs.names) = Sc.n THEN {} ELSE {"sets"})

Put(st, rq, rs, st2) ==
  LET w == Write(st, rq)
      r == Resolve(st, rq.segs)
      stream == w.codes \in {{201}, {204}} /\ w.sts = {} IN
  IF w.codes = {-1} THEN {}
  ELSE IF rq.m = "POST" /\ rq.acc = 1 /\ w.codes = {201} /\ rs.code # 201 THEN Client(rs) \cup (IF st = st2 THEN {} ELSE {"no change"})
  ELSE IF rs.code \notin w.codes THEN
    {"code " \o (IF w.codes = 400..499 THEN "4xx" ELSE ToString(w.codes))}
  ELSE IF rs.code >= 400 THEN (IF st = st2 THEN {} ELSE {"no change"})
  ELSE IF stream /\ ~Streamed(st, rq, st2, rq.body.title) THEN {"state after the stream was written"}
  ELSE IF ~stream /\ st2 \notin w.sts THEN {"state"}
  ELSE IF rs.code = 201 THEN
    LET k == IF stream THEN CHOOSE x \in DOMAIN st2.e[r.s] : ~Has(st, r.s, x) ELSE w.key IN
    (IF rs.loc.s = r.s /\ rs.loc.k = k THEN {} ELSE {"Location"})
    \cup (IF rs.t # "entry" THEN {"an entry"} ELSE One(st2, r.s, k, rq, rs)) \cup Tag(st2, r.s, k, {}, rs)
  ELSE (IF rs.t = "empty" THEN {} ELSE {"empty body"})
    \cup (IF rq.m = "PUT" /\ rq.opt # "links" /\ r.t \in {"ent", "prop", "cx"} THEN Tag(st2, r.s, r.k, {}, rs) ELSE {})

Bads(x) ==
  LET st == St(x.pre) st2 == St(x.post) rq == x.rq rs == x.rs
      bad == IF rq.m = "GET" THEN (IF st = st2 THEN {} ELSE {"no change"}) \cup Get(st, rq, rs)
             ELSE Put(st, rq, rs, st2) IN
  bad \cup (IF rs.code >= 400 /\ rs.t # "error" THEN {"an error document"} ELSE {})
      \cup (IF rs.code < 400 /\ rs.ver # rq.ver THEN {"version"} ELSE {})
Judge == LET ws == [j \in 1..Len(Log[i].xs) |-> Bads(Log[i].xs[j])]
             f == {j \in 1..Len(ws) : ws[j] # {}} IN
         PrintT(ToJson([bad |-> IF f = {} THEN 0 ELSE i, xs |-> SetToSeq(f), want |-> {<<j, ToString(ws[j])>> : j \in f}]))
=============================================================================
