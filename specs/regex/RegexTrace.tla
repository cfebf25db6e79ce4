----------------------------- MODULE RegexTrace -----------------------------
(* Judges character classes and regular expressions of the real code.        *)
EXTENDS Regex, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
Regs == 1..3
RECURSIVE Run(_, _, _)
Run(P, S, ops) == IF ops = <<>> THEN <<>> ELSE LET T == Apply(P, S, ops[1]) IN <<T>> \o Run(P, T, Tail(ops))
Of(P, ranges) == {p \in P : \E j \in 1..Len(ranges) : ranges[j][1] <= p /\ p <= ranges[j][2]}
CCBad(r) ==
  LET P == Look(r.ops)
      H == Run(P, [k \in Regs |-> {}], r.ops)
      F == H[Len(H)]
      probes == {r.probes[j] : j \in 1..Len(r.probes)} IN
  IF r.st = "surrogate" THEN {}
  ELSE IF r.st # "ok" \/ Len(r.regs) # Len(H) THEN {"crash"}
  ELSE (IF \E k \in 1..Len(H) : \E q \in Regs : Of(P, r.regs[k][q]) # H[k][q] THEN {"set"} ELSE {})
       \union (IF \E j, q \in Regs : r.eq[j][q] # (F[j] = F[q]) THEN {"eq"} ELSE {})
       \union (IF \E q \in Regs : {r.test[q][j] : j \in 1..Len(r.test[q])} # F[q] \intersect probes THEN {"test"} ELSE {})
       \union (IF \E q \in Regs : {r.re[q][j] : j \in 1..Len(r.re[q])} # F[q] \intersect probes THEN {"re"} ELSE {})
       \union (IF \E q \in Regs : {r.rep[q][j] : j \in 1..Len(r.rep[q])} # F[q] \intersect probes THEN {"repr"} ELSE {})
REBad(r) ==
  IF r.bad THEN IF r.st \in {"err", "surrogate"} THEN {} ELSE {"accepted"}
  ELSE IF r.st = "surrogate" THEN {}      \* the platform cannot write the class
  ELSE IF r.st = "crash" /\ r.why \in {"error: nothing to repeat", "RuntimeError: maximum recursion limit exceeded"} /\ Nested(r.e) THEN {"nested"}
  ELSE IF r.st # "ok" THEN {"refused"}
  ELSE {j \in 1..Len(r.ts) : (r.got[j] = 1) # Matches(r.e, r.ts[j])}
Parts(r) == IF r.op = "cc" THEN CCBad(r) ELSE REBad(r)
Judge == LET b == Parts(R) IN
  PrintT(ToJson([bad |-> IF b = {} THEN 0 ELSE i, i |-> i, op |-> R.op, parts |-> b,
                 yes |-> IF R.op = "re" /\ ~R.bad THEN Cardinality({j \in 1..Len(R.ts) : Matches(R.e, R.ts[j])}) ELSE 0]))
=============================================================================
