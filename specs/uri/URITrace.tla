----------------------------- MODULE URITrace ------------------------------
(* Judges batches of observations of the real URI code.                    *)
EXTENDS URI, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
ParseOK(x) ==
  LET p == Parse(x.s) IN
  IF p.open THEN x.st \in {"ok", "uri"}
  ELSE IF ~p.ok THEN x.st = "uri"
  ELSE x.st = "ok" /\ SameURI(p, x) /\ x.back = x.s
NameOK(x) ==
  LET p == Parse(x.s)
      path == IF p.abs # <<>> THEN p.abs[1] ELSE IF p.rel # <<>> THEN p.rel[1] ELSE <<>>
      ss == IF path = <<>> THEN <<>> ELSE Split(path)
      n == Unescape(ss[Len(ss)]) IN
  ~p.ok \/ p.open \/ (IF path = <<>> THEN x.name = <<>> ELSE (\E k \in 1..Len(n) : n[k] > 127) \/ x.name = <<n>>)
Open3(r, b) == LET u == Resolve(r, b) IN r.open \/ Odd(u) \/ (r.abs # <<>> /\ Odd(r)) \/ (b.abs = <<>> /\ r.rel # <<>>)
NoPathOK(r, b, got) ==       \* relative to a base like http://host
  Odd(Resolve(r, b)) \/ got = Text(Resolve(r, b)) \/ (r.rel = <<<<>>>> /\ r.query # <<>> /\ got = Text([Resolve(r, b) EXCEPT !.abs = <<>>]))
ResolveOK(b, x) ==
  LET r == Parse(x.s) IN
  IF ~r.ok \/ r.open \/ ~Base(b) THEN TRUE
  ELSE IF x.st # "ok" THEN FALSE
  ELSE IF b.abs = <<>> /\ r.rel # <<>> /\ r.auth = <<>> /\ r.scheme = <<>> THEN NoPathOK(r, b, x.got)
  ELSE Open3(r, b) \/ x.got = Text(Resolve(r, b))
(* resolving in two steps: x.got = x.s resolved against (m resolved against b); x.got2 = (x.s resolved against m) resolved against b *)
RelativeOK(b, x) ==
  LET u == Parse(x.s) IN
  IF ~u.ok \/ u.open \/ ~b.ok \/ b.open THEN TRUE
  ELSE IF x.st = "rel" THEN ~MustRel(u, b)
  ELSE IF x.st # "ok" THEN FALSE
  ELSE IF Odd(u) \/ Odd(b) \/ Odd(CleanAbs(u)) \/ (u.scheme = <<>> /\ b.scheme = <<>> /\ u.auth # <<>>) THEN TRUE
  ELSE LET v == Parse(x.back) IN v.ok /\ SameURI(Norm(v), Norm(u)) /\ (Short(u, b) => Parse(x.got).scheme = <<>>)
EscOK(x) ==
  LET keepR == Unreserved \cup Reserved IN
  /\ x.e1 = Escape(x.s, Unreserved)
  /\ x.e2 = Escape(x.s, Alpha \cup Digit)
  /\ x.e3 = Escape(x.s, keepR)
  /\ x.u1 = x.s /\ x.u2 = x.s /\ x.u3 = x.s
  /\ (~WellEscaped(x.s) \/ x.u = Unescape(x.s))
HttpOK(x) ==
  LET a == Parse(x.s)  b == Parse(x.t) IN
  x.st = "ok" /\ x.match = (HttpKey(a) = HttpKey(b)) /\ x.twice /\ x.self
Bads == IF R.k = "parse" THEN {j \in 1..Len(R.xs) : ~(ParseOK(R.xs[j]) /\ NameOK(R.xs[j]))}
  ELSE IF R.k = "resolve" THEN LET b == Parse(R.b) IN {j \in 1..Len(R.xs) : ~ResolveOK(b, R.xs[j])}
  ELSE IF R.k = "relative" THEN LET b == Parse(R.b) IN {j \in 1..Len(R.xs) : ~RelativeOK(b, R.xs[j])}
  ELSE IF R.k = "escape" THEN {j \in 1..Len(R.xs) : ~EscOK(R.xs[j])}
  ELSE {j \in 1..Len(R.xs) : ~HttpOK(R.xs[j])}
Want(x) == IF R.k = "resolve" THEN ToString(Text(Resolve(Parse(x.s), Parse(R.b)))) ELSE ToString(Parse(x.s))
Judge == PrintT(ToJson([bad |-> IF Bads = {} THEN 0 ELSE i, xs |-> Bads, want |-> IF Bads = {} \/ R.k \in {"escape", "http"} THEN "" ELSE Want(R.xs[CHOOSE j \in Bads : TRUE])]))
=============================================================================
