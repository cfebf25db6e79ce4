----------------------------- MODULE QTITrace ------------------------------
(* Judges the values the real expressions gave in a running item session:  *)
(* one record has the variables of an item and many expressions.           *)
EXTENDS Session, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
Started == Attempt(Begin(Start(R.decls)))
Bad(S1) == {j \in 1..Len(R.exprs) : ~Right(R.exprs[j], S1, R.got[j])}
Judge == LET S1 == Started  b == Bad(S1) IN
  PrintT(ToJson([k |-> "item", bad |-> IF b = {} THEN 0 ELSE i, js |-> b,
    any |-> Cardinality({j \in 1..Len(R.exprs) : R.exprs[j].op \notin RandomOps /\ Eval(R.exprs[j], S1).s = "a"}),
    why |-> IF b = {} THEN "" ELSE LET e == R.exprs[CHOOSE j \in b : TRUE] IN IF e.op \in RandomOps THEN "" ELSE ToString(Eval(e, S1))]))
=============================================================================
