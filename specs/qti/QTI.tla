-------------------------------- MODULE QTI --------------------------------
(* Values, expressions, rules and item sessions of IMS QTI 2.1 as          *)
(* documented in pyslet.qtiv2.  A value has a cardinality c, a base type b  *)
(* (either may be "", unknown), a sequence v of scalars (a NULL has none),  *)
(* and for records the names f and base types g of its fields.  A scalar is *)
(* a sequence of integers: <<0/1>> boolean, <<n>> integer, <<n, d>> float   *)
(* or duration n/d, <<x, y>> point, code points for the text types.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(c, b, v) == [s |-> "v", c |-> c, b |-> b, v |-> v, f |-> <<>>, g |-> <<>>]
ERR == [s |-> "e", c |-> "", b |-> "", v |-> <<>>, f |-> <<>>, g |-> <<>>]       \* a ProcessingError
ANY == [ERR EXCEPT !.s = "a"]                                                  \* not specified
NULLV == V("", "", <<>>)
IsV(x) == x.s = "v"
NN(x) == x.v # <<>>                      \* non-NULL
One(b, k) == V("single", b, <<k>>)
Nil(b) == V("single", b, <<>>)
Bool(t) == One("boolean", <<IF t THEN 1 ELSE 0>>)
NB == Nil("boolean")
Containers == {"ordered", "multiple"}

(* ------------------------------------------------------------- numbers *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1  k == Gcd(Abs(n), Abs(d)) IN <<s * (n \div k), (s * d) \div k>>
Big(q) == Abs(q[1]) > 20000 \/ q[2] > 1000
RECURSIVE Pow2(_)
Pow2(d) == d = 1 \/ (d % 2 = 0 /\ Pow2(d \div 2))
Dyadic(q) == Pow2(q[2])                  \* then the float is exact
Q(x) == IF x.b = "integer" THEN <<x.v[1][1], 1>> ELSE x.v[1]
QAdd(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
QSub(x, y) == QAdd(x, <<-y[1], y[2]>>)
QMul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
QLess(x, y) == x[1] * y[2] < y[1] * x[2]
FloorQ(q) == q[1] \div q[2]              \* \div rounds down
TruncQ(q) == IF q[1] >= 0 THEN q[1] \div q[2] ELSE -((-q[1]) \div q[2])
RECURSIVE QPow(_, _)
QPow(x, n) == IF n = 0 THEN <<1, 1>> ELSE LET r == QPow(x, n - 1) IN IF Big(r) THEN r ELSE QMul(r, x)
Inexact(x) == x.b \in {"float", "duration"} /\ \E i \in 1..Len(x.v) : ~Dyadic(x.v[i])
Num(b, q) == IF Big(q) THEN ANY ELSE IF b = "integer" THEN One(b, <<q[1]>>) ELSE One(b, q)

(* ----------------------------------------------------------- type rules *)
Distinct(bs) == {bs[i] : i \in 1..Len(bs)} \ {""}
Same(bs) == Cardinality(Distinct(bs)) <= 1
Common(bs) == IF Distinct(bs) = {} THEN "" ELSE CHOOSE b \in Distinct(bs) : TRUE
Bases(ks) == [i \in 1..Len(ks) |-> ks[i].b]
Cards(ks) == [i \in 1..Len(ks) |-> ks[i].c]
Singles(ks) == Distinct(Cards(ks)) \subseteq {"single"}
Typed(ks, b) == Singles(ks) /\ Distinct(Bases(ks)) \subseteq {b}
Numeric(ks) == Singles(ks) /\ Distinct(Bases(ks)) \subseteq {"integer", "float"}
NumBase(ks) == IF "float" \in Distinct(Bases(ks)) THEN "float" ELSE Common(Bases(ks))

Count(v, k) == Cardinality({i \in 1..Len(v) : v[i] = k})
SameBag(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Count(v, v[i]) = Count(w, v[i])
SameVal(x, y) ==      \* same contents (of values with the same type)
  IF x.c = "multiple" THEN SameBag(x.v, y.v)
  ELSE IF x.c = "record" THEN
    Len(x.f) = Len(y.f) /\ \A i \in 1..Len(x.f) : \E j \in 1..Len(y.f) : x.f[i] = y.f[j] /\ x.g[i] = y.g[j] /\ x.v[i] = y.v[j]
  ELSE x.v = y.v
SameValue(x, y) == x.c = y.c /\ x.b = y.b /\ SameVal(x, y)

Low(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
SubText(p, t) == \E k \in 0..(Len(t) - Len(p)) : SubSeq(t, k + 1, k + Len(p)) = p
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE QSumV(_)
QSumV(qs) == IF qs = <<>> THEN <<0, 1>> ELSE LET r == QSumV(Tail(qs)) IN IF Big(r) THEN r ELSE QAdd(Head(qs), r)
RECURSIVE QProdV(_)
QProdV(qs) == IF qs = <<>> THEN <<1, 1>> ELSE LET r == QProdV(Tail(qs)) IN IF Big(r) THEN r ELSE QMul(Head(qs), r)
RECURSIVE Uniq(_)
Uniq(v) == IF v = <<>> THEN <<>> ELSE LET r == Uniq(SubSeq(v, 1, Len(v) - 1)) IN IF Count(r, v[Len(v)]) > 0 THEN r ELSE Append(r, v[Len(v)])

(* ---------------------------------------------------------------- shapes *)
(* percentages are of a stage w by h; outside a stage only pixels are used *)
MIN(x, y) == IF x < y THEN x ELSE y
MAX(x, y) == IF x > y THEN x ELSE y
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Vert(cs) == [i \in 1..(Len(cs) \div 2) |-> <<cs[2 * i - 1], cs[2 * i]>>]
Nxt(vs, i) == vs[IF i = Len(vs) THEN 1 ELSE i + 1]
OnEdge(p, vs) == \E i \in 1..Len(vs) : LET x == vs[i]  y == Nxt(vs, i) IN
  Cross(x, y, p) = 0 /\ MIN(x[1], y[1]) <= p[1] /\ p[1] <= MAX(x[1], y[1]) /\ MIN(x[2], y[2]) <= p[2] /\ p[2] <= MAX(x[2], y[2])
Crossings(p, vs) == Cardinality({i \in 1..Len(vs) : LET x == vs[i]  y == Nxt(vs, i) IN
  ((x[2] > p[2]) # (y[2] > p[2])) /\ (IF y[2] > x[2] THEN Cross(x, y, p) > 0 ELSE Cross(x, y, p) < 0)})
In(shape, cs, p, w, h) ==
  CASE shape = "default" -> p[1] >= 0 /\ p[2] >= 0 /\ (w = 0 \/ p[1] <= w) /\ (h = 0 \/ p[2] <= h)
    [] shape = "rect" -> MIN(cs[1], cs[3]) <= p[1] /\ p[1] < MAX(cs[1], cs[3]) /\ MIN(cs[2], cs[4]) <= p[2] /\ p[2] < MAX(cs[2], cs[4])
    [] shape = "circle" -> (p[1] - cs[1]) * (p[1] - cs[1]) + (p[2] - cs[2]) * (p[2] - cs[2]) <= cs[3] * cs[3]
    [] shape = "ellipse" -> (p[1] - cs[1]) * (p[1] - cs[1]) * cs[4] * cs[4] + (p[2] - cs[2]) * (p[2] - cs[2]) * cs[3] * cs[3] <= cs[3] * cs[3] * cs[4] * cs[4]
    [] shape = "poly" -> Crossings(p, Vert(cs)) % 2 = 1
    [] OTHER -> FALSE
Edge(shape, cs, p) == shape = "poly" /\ OnEdge(p, Vert(cs))

(* ----------------------------------------------------------- expressions *)
(* Rounding: the decimal places or significant figures of equalRounded    *)
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
Tie(q, m) == (2 * q[1] * m) % q[2] = 0 /\ ((2 * q[1] * m) \div q[2]) % 2 # 0       \* q*m is a half
Rnd(q, m) == FloorQ(<<2 * q[1] * m + q[2], 2 * q[2]>>)
Mag(q) == CHOOSE e \in -4..5 : /\ IF e >= 0 THEN Abs(q[1]) < Ten(e) * q[2] ELSE Abs(q[1]) * Ten(-e) < q[2]
                              /\ IF e >= 1 THEN Abs(q[1]) >= Ten(e - 1) * q[2] ELSE Abs(q[1]) * Ten(1 - e) >= q[2]   \* 10^(e-1) <= |q| < 10^e
SigTie(q, n) == q[1] # 0 /\ (Mag(q) > n \/ Tie(q, Ten(n - Mag(q))))
SigEq(x, y, n) == IF x[1] = 0 \/ y[1] = 0 THEN x[1] = y[1]
  ELSE \* compared as integer mantissas of n digits with the place they start at
    LET m(q) == Rnd(q, Ten(n - Mag(q)))  p(q) == IF Abs(m(q)) = Ten(n) THEN <<m(q) \div 10, Mag(q) + 1>> ELSE <<m(q), Mag(q)>> IN p(x) = p(y)

(* variables: a function from names to [k |-> kind, val, def, cor, mp, ar]; kinds: R, O, T, r, o (built in) *)
Has(S0, x) == x \in DOMAIN S0
TRef(S0, r, b) ==    \* r = [ref |-> name or "", q |-> number]: an attribute or a template reference
  IF r.ref = "" THEN [ok |-> TRUE, q |-> r.q]
  ELSE IF ~Has(S0, r.ref) THEN [ok |-> FALSE, q |-> <<0, 1>>]
  ELSE LET d == S0[r.ref] IN
    IF d.k = "T" /\ d.val.b = "duration" THEN [ok |-> FALSE, q |-> <<0, 0>>]
    ELSE IF d.k # "T" \/ d.val.c # "single" \/ d.val.b # b THEN [ok |-> FALSE, q |-> <<0, 1>>]
    ELSE IF ~NN(d.val) THEN [ok |-> FALSE, q |-> <<0, 0>>] ELSE [ok |-> TRUE, q |-> Q(d.val)]
RefBad(r) == IF r.q[2] = 0 THEN ANY ELSE ERR

MapSum(m, v) == QSumV([i \in 1..Len(Uniq(v)) |->
  LET js == {j \in 1..Len(m.ents) : m.ents[j].key = Uniq(v)[i]} IN IF js = {} THEN m.def ELSE m.ents[CHOOSE j \in js : \A k \in js : k <= j].to])
Clamp(m, q) == IF m.lo # <<>> /\ QLess(q, m.lo) THEN m.lo ELSE IF m.hi # <<>> /\ QLess(m.hi, q) THEN m.hi ELSE q
Hit(as, p) == LET is == {i \in 1..Len(as) : In(as[i].shape, as[i].cs, p, 100, 100)} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
AreaSum(m, v) == LET u == Uniq(v)  hits == [i \in 1..Len(v) |-> Hit(m.ents, v[i])] IN
  QAdd(QSumV([j \in 1..Len(m.ents) |-> IF \E i \in 1..Len(v) : hits[i] = j THEN m.ents[j].to ELSE <<0, 1>>]),
       QSumV([i \in 1..Len(v) |-> IF hits[i] = 0 THEN m.def ELSE <<0, 1>>]))

RECURSIVE Eval(_, _)
Leaf(e, S0) ==
  CASE e.op = "baseValue" -> V("single", e.b, e.v)
    [] e.op = "null" -> NULLV
    [] e.op = "variable" -> IF Has(S0, e.id) THEN S0[e.id].val ELSE ERR
    [] e.op = "default" -> IF Has(S0, e.id) THEN (IF S0[e.id].k = "x" THEN ANY ELSE IF S0[e.id].k \notin {"R", "O"} THEN ERR ELSE S0[e.id].def) ELSE ERR
    [] e.op = "correct" -> IF ~Has(S0, e.id) \/ S0[e.id].k # "R" THEN ERR ELSE S0[e.id].cor
    [] e.op = "mapResponse" ->
         IF ~Has(S0, e.id) \/ S0[e.id].k # "R" \/ S0[e.id].mp = <<>> THEN ERR
         ELSE IF S0[e.id].val.c = "record" THEN ANY
         ELSE IF ~NN(S0[e.id].val) THEN One("float", <<0, 1>>)
         ELSE Num("float", Clamp(S0[e.id].mp[1], MapSum(S0[e.id].mp[1], S0[e.id].val.v)))
    [] e.op = "mapResponsePoint" ->
         IF ~Has(S0, e.id) \/ S0[e.id].k # "R" \/ S0[e.id].val.b # "point" \/ S0[e.id].ar = <<>> THEN ERR
         ELSE IF ~NN(S0[e.id].val) THEN One("float", <<0, 1>>)
         ELSE LET m == S0[e.id].ar[1]  v == IF S0[e.id].val.c = "multiple" THEN Uniq(S0[e.id].val.v) ELSE S0[e.id].val.v IN
           IF \E i \in 1..Len(v), j \in 1..Len(m.ents) : Edge(m.ents[j].shape, m.ents[j].cs, v[i]) THEN ANY
           ELSE IF S0[e.id].val.c = "ordered" /\ Uniq(v) # v THEN ANY
           ELSE Num("float", Clamp(m, AreaSum(m, v)))
LeafOps == {"baseValue", "null", "variable", "default", "correct", "mapResponse", "mapResponsePoint"}

Collect(c, ks) ==
  IF \E i \in 1..Len(ks) : ks[i].c = "record" THEN ANY
  ELSE IF ~Same(Bases(ks)) THEN ERR
  ELSE IF \E i \in 1..Len(ks) : ks[i].c \notin {"", "single", c} THEN (IF \E i \in 1..Len(ks) : NN(ks[i]) /\ ks[i].c \notin {"", "single", c} THEN ERR ELSE ANY)
  ELSE V(c, Common(Bases(ks)), Concat([i \in 1..Len(ks) |-> ks[i].v]))

Truth(ks) == [t |-> Cardinality({i \in 1..Len(ks) : ks[i].v = <<<<1>>>>}), n |-> Cardinality({i \in 1..Len(ks) : ~NN(ks[i])}),
              f |-> Cardinality({i \in 1..Len(ks) : ks[i].v = <<<<0>>>>})]

Compare(op, x, y) ==     \* of two non-NULL numbers
  LET l == QLess(x, y)  g == QLess(y, x) IN
  CASE op \in {"lt", "durationLT"} -> l [] op = "gt" -> g [] op = "lte" -> ~g [] op \in {"gte", "durationGTE"} -> ~l

BinaryOps == {"member", "delete", "contains", "substring", "match", "stringMatch", "equal", "equalRounded", "lt", "gt", "lte", "gte",
              "durationLT", "durationGTE", "subtract", "divide", "power", "integerDivide", "integerModulus"}
Binary(e, x, y, S0) ==
  LET ks == <<x, y>>  both == NN(x) /\ NN(y)  fuzzy == Inexact(x) \/ Inexact(y) IN
  CASE e.op \in {"member", "delete"} ->
         IF x.b = "" \/ y.b = "" THEN (IF e.op = "member" /\ x.c # "record" /\ y.c # "record" THEN NB ELSE ANY)
         ELSE IF x.b # y.b \/ x.b = "duration" THEN ERR
         ELSE IF ~both /\ (x.c # "single" \/ y.c \notin Containers) THEN ANY
         ELSE IF x.c # "single" \/ y.c \notin Containers THEN ERR
         ELSE IF fuzzy THEN ANY
         ELSE IF e.op = "member" THEN (IF both THEN Bool(Count(y.v, x.v[1]) > 0) ELSE NB)
         ELSE V(y.c, y.b, IF both THEN SelectSeq(y.v, LAMBDA k : k # x.v[1]) ELSE <<>>)
    [] e.op = "contains" ->     \* the container given second holds that given first (as the existing tests have it)
         IF ~Same(Bases(ks)) \/ ~Same(Cards(ks)) \/ "duration" \in Distinct(Bases(ks)) THEN ERR
         ELSE IF Common(Cards(ks)) = "" \/ Common(Bases(ks)) = "" THEN (IF x.c = "record" \/ y.c = "record" THEN ANY ELSE NB)
         ELSE IF Common(Cards(ks)) \notin Containers THEN (IF both THEN ERR ELSE ANY)
         ELSE IF ~both THEN NB
         ELSE IF fuzzy THEN ANY
         ELSE IF x.c = "multiple" THEN Bool(\A i \in 1..Len(x.v) : Count(x.v, x.v[i]) <= Count(y.v, x.v[i]))
         ELSE Bool(SubText(x.v, y.v))
    [] e.op \in {"substring", "stringMatch"} ->
         IF ~Typed(ks, "string") THEN ERR ELSE IF ~both THEN NB
         ELSE LET p == IF e.cs THEN x.v[1] ELSE Low(x.v[1])  t == IF e.cs THEN y.v[1] ELSE Low(y.v[1]) IN
           Bool(IF e.op = "substring" \/ e.sub THEN SubText(p, t) ELSE p = t)
    [] e.op = "match" ->
         IF ~Same(Bases(ks)) \/ ~Same(Cards(ks)) \/ "duration" \in Distinct(Bases(ks)) THEN ERR
         ELSE IF ~both THEN NB ELSE IF fuzzy \/ x.c = "record" THEN ANY ELSE Bool(SameVal(x, y))
    [] e.op = "equal" ->
         IF ~Numeric(ks) THEN ERR ELSE IF ~both THEN NB
         ELSE IF e.mode = "exact" THEN (IF fuzzy /\ Q(x) = Q(y) THEN ANY ELSE Bool(Q(x) = Q(y)))
         ELSE IF e.tol = <<>> THEN ERR
         ELSE LET a == TRef(S0, e.tol[1], "float")  c == TRef(S0, e.tol[Len(e.tol)], "float") IN
           IF ~a.ok THEN RefBad(a) ELSE IF ~c.ok THEN RefBad(c)
           ELSE IF e.mode = "relative" /\ QLess(Q(x), <<0, 1>>) THEN ANY
           ELSE LET lo == IF e.mode = "absolute" THEN QSub(Q(x), a.q) ELSE QMul(Q(x), QSub(<<1, 1>>, Norm(a.q[1], 100 * a.q[2])))
                    hi == IF e.mode = "absolute" THEN QAdd(Q(x), c.q) ELSE QMul(Q(x), QAdd(<<1, 1>>, Norm(c.q[1], 100 * c.q[2]))) IN
             IF Big(lo) \/ Big(hi) \/ Big(Q(y)) THEN ANY
             ELSE IF (Q(y) = lo \/ Q(y) = hi) /\ (fuzzy \/ (e.mode = "relative" /\ ~(Dyadic(lo) /\ Dyadic(hi) /\ a.q[1] = 0 /\ c.q[1] = 0))) THEN ANY
             ELSE Bool((QLess(lo, Q(y)) \/ (e.il /\ lo = Q(y))) /\ (QLess(Q(y), hi) \/ (e.iu /\ hi = Q(y))))
    [] e.op = "equalRounded" ->
         IF ~Numeric(ks) THEN ERR ELSE IF ~both THEN NB
         ELSE LET n == TRef(S0, e.fig, "integer") IN
           IF ~n.ok THEN RefBad(n)
           ELSE IF n.q[1] < (IF e.mode = "significantFigures" THEN 1 ELSE 0) \/ n.q[1] > 3 \/ Abs(Q(x)[1]) > 2000 \/ Abs(Q(y)[1]) > 2000 \/ Q(x)[2] > 200 \/ Q(y)[2] > 200 THEN ANY
           ELSE IF e.mode = "significantFigures" THEN
             (IF SigTie(Q(x), n.q[1]) \/ SigTie(Q(y), n.q[1]) THEN ANY ELSE Bool(SigEq(Q(x), Q(y), n.q[1])))
           ELSE LET m == Ten(n.q[1]) IN IF Tie(Q(x), m) \/ Tie(Q(y), m) THEN ANY ELSE Bool(Rnd(Q(x), m) = Rnd(Q(y), m))
    [] e.op \in {"lt", "gt", "lte", "gte", "durationLT", "durationGTE"} ->
         IF (IF e.op \in {"durationLT", "durationGTE"} THEN ~Typed(ks, "duration") ELSE ~Numeric(ks)) THEN ERR
         ELSE IF ~both THEN NB ELSE IF fuzzy /\ Q(x) = Q(y) THEN ANY ELSE Bool(Compare(e.op, Q(x), Q(y)))
    [] e.op = "subtract" ->
         IF ~Numeric(ks) THEN ERR ELSE IF ~both THEN Nil(NumBase(ks)) ELSE IF fuzzy THEN ANY ELSE Num(NumBase(ks), QSub(Q(x), Q(y)))
    [] e.op = "divide" ->
         IF ~Numeric(ks) THEN ERR ELSE IF ~both \/ Q(y)[1] = 0 THEN Nil("float") ELSE IF fuzzy THEN ANY
         ELSE Num("float", Norm(Q(x)[1] * Q(y)[2], Q(x)[2] * Q(y)[1]))
    [] e.op = "power" ->
         IF ~Numeric(ks) THEN ERR ELSE IF ~both THEN Nil("float") ELSE IF fuzzy THEN ANY
         ELSE IF Q(y)[2] # 1 THEN (IF QLess(Q(x), <<0, 1>>) THEN Nil("float") ELSE ANY)
         ELSE IF Q(x)[1] = 0 /\ Q(y)[1] < 0 THEN Nil("float")
         ELSE IF Abs(Q(y)[1]) > 12 THEN ANY
         ELSE LET r == QPow(Q(x), Abs(Q(y)[1])) IN IF Big(r) THEN ANY ELSE Num("float", IF Q(y)[1] >= 0 THEN r ELSE Norm(r[2], r[1]))
    [] e.op \in {"integerDivide", "integerModulus"} ->
         IF ~Typed(ks, "integer") THEN ERR ELSE IF ~both \/ Q(y)[1] = 0 THEN Nil("integer")
         ELSE LET n == Q(x)[1]  d == Q(y)[1]  z == IF d > 0 THEN n \div d ELSE (-n) \div (-d) IN
           One("integer", <<IF e.op = "integerDivide" THEN z ELSE n - z * d>>)

Unary(e, x, S0) ==
  CASE e.op = "containerSize" -> IF x.c \in Containers THEN One("integer", <<Len(x.v)>>) ELSE IF x.c = "" THEN ANY ELSE ERR
    [] e.op = "isNull" -> Bool(~NN(x))
    [] e.op = "index" -> IF x.c # "ordered" THEN (IF x.c = "" THEN ANY ELSE ERR)
                         ELSE IF ~NN(x) THEN (IF e.n < 1 THEN ANY ELSE Nil(x.b)) ELSE IF e.n < 1 THEN ERR
                         ELSE V("single", x.b, IF e.n <= Len(x.v) THEN <<x.v[e.n]>> ELSE <<>>)
    [] e.op = "fieldValue" -> IF x.c # "record" THEN (IF x.c = "" THEN ANY ELSE ERR)
                              ELSE LET is == {i \in 1..Len(x.f) : x.f[i] = e.id} IN
                                IF is = {} THEN Nil("") ELSE LET i == CHOOSE i \in is : TRUE IN V("single", x.g[i], <<x.v[i]>>)
    [] e.op = "not" -> IF ~Typed(<<x>>, "boolean") THEN ERR ELSE IF NN(x) THEN Bool(x.v[1] = <<0>>) ELSE NB
    [] e.op = "inside" ->
         IF Distinct(<<x.b>>) \subseteq {"point"} /\ x.c # "record" THEN
           (IF ~NN(x) THEN NB ELSE IF \E i \in 1..Len(x.v) : Edge(e.shape, e.cs0, x.v[i]) THEN ANY
            ELSE Bool(\E i \in 1..Len(x.v) : In(e.shape, e.cs0, x.v[i], 0, 0)))
         ELSE ERR
    [] e.op \in {"truncate", "round"} ->
         IF ~Typed(<<x>>, "float") THEN ERR ELSE IF ~NN(x) THEN Nil("integer")
         ELSE One("integer", <<IF e.op = "truncate" THEN TruncQ(Q(x)) ELSE FloorQ(QAdd(Q(x), <<1, 2>>))>>)
    [] e.op = "integerToFloat" ->
         IF ~Typed(<<x>>, "integer") THEN ERR ELSE IF NN(x) THEN One("float", Q(x)) ELSE Nil("float")
UnaryOps == {"containerSize", "isNull", "index", "fieldValue", "not", "inside", "truncate", "round", "integerToFloat"}

Nary(e, ks, S0) ==
  CASE e.op \in {"multiple", "ordered"} -> Collect(e.op, ks)
    [] e.op \in {"and", "or"} ->
         IF ~Typed(ks, "boolean") THEN ERR
         ELSE LET t == Truth(ks) IN
           IF e.op = "and" THEN (IF t.f > 0 THEN Bool(FALSE) ELSE IF t.n > 0 THEN NB ELSE Bool(TRUE))
           ELSE (IF t.t > 0 THEN Bool(TRUE) ELSE IF t.n > 0 THEN NB ELSE Bool(FALSE))
    [] e.op = "anyN" ->
         LET lo == TRef(S0, e.min, "integer")  hi == TRef(S0, e.max, "integer") IN
         IF ~lo.ok THEN RefBad(lo) ELSE IF ~hi.ok THEN RefBad(hi)
         ELSE IF ~Typed(ks, "boolean") THEN ERR
         ELSE LET t == Truth(ks)  can == {r \in t.t..(t.t + t.n) : lo.q[1] <= r /\ r <= hi.q[1]} IN
           IF can = {} THEN (IF lo.q[1] > hi.q[1] \/ hi.q[1] < 0 THEN ANY ELSE Bool(FALSE)) ELSE IF can = t.t..(t.t + t.n) THEN Bool(TRUE) ELSE NB
    [] e.op \in {"sum", "product"} ->
         IF ks = <<>> \/ ~Numeric(ks) THEN ERR
         ELSE IF \E i \in 1..Len(ks) : ~NN(ks[i]) THEN Nil(NumBase(ks))
         ELSE IF \E i \in 1..Len(ks) : Inexact(ks[i]) THEN ANY
         ELSE LET qs == [i \in 1..Len(ks) |-> Q(ks[i])] IN Num(NumBase(ks), IF e.op = "sum" THEN QSumV(qs) ELSE QProdV(qs))

Eval(e, S0) ==
  IF e.op \in LeafOps THEN Leaf(e, S0)
  ELSE LET ks == [i \in 1..Len(e.kids) |-> Eval(e.kids[i], S0)] IN
    IF \E i \in 1..Len(ks) : ks[i].s = "a" THEN ANY     \* (an error elsewhere may or may not come first)
    ELSE IF \E i \in 1..Len(ks) : ks[i].s = "e" THEN (IF e.op = "anyN" THEN ANY ELSE ERR)
    ELSE IF e.op \in UnaryOps THEN (IF Len(ks) # 1 THEN ANY ELSE Unary(e, ks[1], S0))
    ELSE IF e.op \in BinaryOps THEN (IF Len(ks) # 2 THEN ERR ELSE Binary(e, ks[1], ks[2], S0))
    ELSE Nary(e, ks, S0)

(* the random operators (only as the outermost one): what they may give *)
RandomOps == {"random", "randomInteger", "randomFloat"}
Allowed(e, S0, got) ==
  CASE e.op = "random" ->
         LET x == Eval(e.kids[1], S0) IN
         IF x.s = "a" THEN TRUE ELSE IF x.s = "e" THEN got.s = "e"
         ELSE IF x.c \in {"single", "record"} THEN got.s = "e"
         ELSE got.s = "v" /\ got.c = "single" /\ got.b = x.b /\ (IF NN(x) THEN Len(got.v) = 1 /\ Count(x.v, got.v[1]) > 0 ELSE got.v = <<>>)
    [] e.op = "randomInteger" ->
         LET lo == TRef(S0, e.min, "integer")  hi == TRef(S0, e.max, "integer")  st == TRef(S0, e.step, "integer") IN
         IF \E r \in {lo, hi, st} : ~r.ok THEN (IF \E r \in {lo, hi, st} : r.q[2] = 0 THEN TRUE ELSE got.s = "e")
         ELSE IF st.q[1] < 1 \/ lo.q[1] > hi.q[1] THEN TRUE
         ELSE got.s = "v" /\ got.c = "single" /\ got.b = "integer" /\ Len(got.v) = 1
              /\ LET n == got.v[1][1] IN lo.q[1] <= n /\ n <= hi.q[1] /\ (n - lo.q[1]) % st.q[1] = 0
    [] e.op = "randomFloat" ->
         LET lo == TRef(S0, e.min, "float")  hi == TRef(S0, e.max, "float") IN
         IF \E r \in {lo, hi} : ~r.ok THEN (IF \E r \in {lo, hi} : r.q[2] = 0 THEN TRUE ELSE got.s = "e")
         ELSE IF QLess(hi.q, lo.q) THEN TRUE
         ELSE got.s = "v" /\ got.c = "single" /\ got.b = "float" /\ Len(got.v) = 1
              /\ LET q == got.v[1] IN ~QLess(q, lo.q) /\ ~QLess(hi.q, q)
Right(e, S0, got) ==
  IF e.op \in RandomOps THEN Allowed(e, S0, got)
  ELSE LET x == Eval(e, S0) IN
    IF x.s = "a" THEN got.s \in {"v", "e", "o"}  \* (o: a ValueError, which is how results out of range appear)
    ELSE IF x.s = "e" THEN got.s = "e"
    ELSE got.s = "v" /\ got.c = x.c /\ got.b = x.b /\ SameVal(x, got)
=============================================================================
