----------------------------- MODULE HTTPTrace -----------------------------
(* Judges recorded uses of the real header classes.                         *)
EXTENDS HTTP, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
Step == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < Step THEN Len(Log) ELSE Step)
Next == i + Step <= Len(Log) /\ i' = i + Step
R == Log[i]
SamePs(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)
SameType(a, b) == a.t = b.t /\ a.s = b.s /\ SamePs(a.ps, b.ps)
SameItem(a, b) == SameType(a.r, b.r) /\ a.q = b.q /\ SamePs(a.x, b.x)
NormItem(a) == [t |-> a.r.t, s |-> a.r.s, p |-> Range(a.r.ps), q |-> a.q, x |-> Range(a.x)]
Count(f(_), a, x) == Cardinality({j \in 1..Len(a) : f(a[j]) = x})
Id(x) == x
SameBag(f(_), a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(f, a, f(a[j])) = Count(f, b, f(a[j]))
Sorted(c(_, _), a) == \A j \in 1..Len(a) - 1 : c(a[j], a[j + 1]) <= 0
Equal(k, a, b) ==
  CASE k \in {"mt", "mr"} -> SameType(a, b) [] k = "ai" -> SameItem(a, b)
    [] k = "al" -> SameBag(NormItem, a, b) [] k \in {"ac", "ae", "ag"} -> SameBag(Id, a, b)
    [] k = "te" -> a.t = b.t /\ SamePs(a.ps, b.ps) [] OTHER -> a = b
InOrder(k, a) == CASE k = "al" -> Sorted(CmpItem, a) [] k \in {"ac", "ae"} -> Sorted(CmpToken, a) [] k = "ag" -> Sorted(CmpTags, a) [] OTHER -> TRUE
BackOK(k, v, s) == LET p == Parse(k, s) IN p.st = "open" \/ (p.st = "ok" /\ Equal(k, p.v, v))
ParseOK(k, x) ==
  LET p == Parse(k, x.s) IN
  CASE p.st = "open" -> x.st \in {"ok", "err"}
    [] p.st = "err" -> x.st = "err"
    [] p.st = "may" /\ x.st = "err" -> TRUE
    [] OTHER -> /\ x.st = "ok" /\ Equal(k, p.v, x.v) /\ InOrder(k, x.v) /\ BackOK(k, x.v, x.back)
                /\ (k = "cr" => (x.valid = 1) = ValidRange(p.v) /\ (ValidRange(p.v) => x.len = p.v.r[2] - p.v.r[1] + 1))
                /\ (k = "fd" => x.back = InGMT(p.v, 0))
MakeOK(k, x) == x.st = "ok" /\ BackOK(k, x.v, x.back)
DateOK(x) == x.st = "ok" /\ x.back = InGMT(x.v, x.z)
(* the comparisons of all pairs of the values of some texts, and whether they hash alike *)
Sgn(n) == Sign(n, 0)
CmpOK(k, x) ==
  LET p == [j \in 1..Len(x.ss) |-> Parse(k, x.ss[j])] IN
  \A a, b \in 1..Len(x.ss) :
    (p[a].st = "ok" /\ p[b].st = "ok" /\ k # "ag") =>
      LET c == Compare(k, p[a].v, p[b].v) IN x.cmp[a][b] = c /\ (c = 0 => x.hash[a] = x.hash[b] /\ x.hash[a] # "")
CmpAgOK(x) ==
  LET p == [j \in 1..Len(x.ss) |-> Parse("at", x.ss[j])] IN
  \A a, b \in 1..Len(x.ss) : p[a].st = "ok" /\ p[b].st = "ok" =>
      LET c == Compare("ag", p[a].v, p[b].v) IN x.cmp[a][b] = c /\ (c = 0 /\ x.ss[a] = x.ss[b] => x.hash[a] = x.hash[b] /\ x.hash[a] # "")
OfferKind(k) == CASE k = "al" -> "mt" [] k = "ag" -> "lt" [] OTHER -> ""
SelOK(k, x) ==
  LET h == Parse(k, x.s)
      o == [j \in 1..Len(x.os) |-> IF OfferKind(k) = "" THEN OK(x.os[j]) ELSE Parse(OfferKind(k), x.os[j])] IN
  IF h.st = "ok" /\ \A j \in 1..Len(o) : o[j].st = "ok"
  THEN x.got = Choose(k, h.v, [j \in 1..Len(o) |-> o[j].v]) ELSE TRUE
Good(r, x) ==
  CASE r.op = "parse" -> ParseOK(r.k, x) [] r.op = "make" -> MakeOK(r.k, x) [] r.op = "date" -> DateOK(x)
    [] r.op = "cmp" -> IF r.k = "ag" THEN CmpAgOK(x) ELSE CmpOK(r.k, x) [] r.op = "sel" -> SelOK(r.k, x)
Wrong(r) == {j \in 1..Len(r.xs) : ~Good(r, r.xs[j])}
Want(r, x) ==
  CASE r.op = "parse" -> Parse(r.k, x.s) [] r.op = "date" -> OK(InGMT(x.v, x.z))
    [] r.op = "sel" -> LET h == Parse(r.k, x.s) IN h [] OTHER -> Open
Stat(r) == IF r.op = "parse" THEN [ok |-> Cardinality({j \in 1..Len(r.xs) : r.xs[j].st = "ok"}), open |-> Cardinality({j \in 1..Len(r.xs) : Parse(r.k, r.xs[j].s).st = "open"})]
           ELSE [ok |-> Len(r.xs), open |-> 0]
Judge == LET b == Wrong(R) IN
  PrintT(ToJson([bad |-> IF b = {} THEN 0 ELSE i, i |-> i, xs |-> b, n |-> Cardinality(b), k |-> R.op \o " " \o R.k, stat |-> Stat(R),
    want |-> IF b = {} THEN Open ELSE Want(R, R.xs[CHOOSE j \in b : \A l \in b : j <= l])]))
============================================================================
