--------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded item sessions: after every action, all variables.       *)
EXTENDS Session, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
Wrong(o, S1) == {j \in 1..Len(o.vars) : LET w == o.vars[j] IN ~Has(S1, w.id) \/ ~(LET d == S1[w.id] IN
    SameValue(w.val, d.val)
    /\ (d.k \in {"R", "O"} => SameValue(w.def, d.def)) /\ (d.k = "R" => SameValue(w.cor, d.cor))
    /\ (d.sv = <<>>) = (w.sv = <<>>) /\ (d.sv # <<>> => SameValue(w.sv[1], d.sv[1])))}
RECURSIVE Walk(_, _)
Walk(j, S1) ==
  IF j > Len(R.acts) THEN [bad |-> 0, why |-> "", n |-> Len(R.acts), x |-> ""]
  ELSE LET r == Act(R.acts[j], R, S1)  o == R.obs[j] IN
    IF r.st = "any" THEN (IF o.st \in {"ok", "err"} THEN [bad |-> 0, why |-> "", n |-> j, x |-> ""] ELSE [bad |-> i, why |-> "fails", n |-> j, x |-> ""])
    ELSE IF r.st # o.st THEN [bad |-> i, why |-> "is " \o o.st \o " and should be " \o r.st, n |-> j, x |-> ""]
    ELSE IF r.st = "refused" THEN [bad |-> 0, why |-> "", n |-> j, x |-> ""]
    ELSE LET w == Wrong(o, r.S) IN
      IF w # {} THEN [bad |-> i, why |-> "leaves wrong values", n |-> j,
                      x |-> LET k == CHOOSE k \in w : TRUE IN o.vars[k].id \o " should be " \o (IF Has(r.S, o.vars[k].id) THEN ToString(r.S[o.vars[k].id]) ELSE "")]
      ELSE Walk(j + 1, r.S)
Judge == PrintT(ToJson(Walk(1, Start(R.decls))))
=============================================================================
