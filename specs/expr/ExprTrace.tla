----------------------------- MODULE ExprTrace ------------------------------
(* Judges recorded uses of the expression parser and evaluator, one per line:*)
(* tokens of the source, syntax tree (or error) the code built, its text     *)
(* form parsed again, value (or error) of the evaluation.                    *)
EXTENDS Expr, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
Env == JsonDeserialize(IOEnv.VQ_ENV)
VARIABLE i
Init == i \in 1..Len(Log)
Next == FALSE /\ UNCHANGED i
R == Log[i]
E == [lits |-> Env.lits, names |-> Env.names, ctx |-> Env.ctx, fq |-> Env.fq]
P == Parse(R.ts)
\* parsing: "ok" with the tree, or a syntax error
ParseOK == IF P.ok = "unspec" THEN TRUE
           ELSE IF P.ok = "bad" THEN R.pe = "ValueError"
           ELSE R.pe = "" /\ R.ast = P.a
\* text form: parsing it again gives the same meaning (the same tree)
RoundOK == P.ok = "ok" => R.round = "same"
EvalOK == P.ok = "ok" => ValueOK(Eval(E, P.a, 1, 0), R.v)
Verdict == IF ~ParseOK THEN "parse" ELSE IF ~RoundOK THEN "round trip" ELSE IF ~EvalOK THEN "eval" ELSE ""
Judge == LET v == Verdict IN
  IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> i, why |-> v,
     want |-> IF v = "eval" THEN ToString(Eval(E, P.a, 1, 0)) ELSE ToString(P.a)]))
\* how much of the log was decided (not left unspecified), printed once per line of it
Stat == PrintT(ToJson([k |-> IF P.ok = "ok" THEN (LET e == Eval(E, P.a, 1, 0) IN IF e.t = "UNK" \/ e.u THEN "anyvalue" ELSE IF e.t = "ERR" THEN "err" ELSE "value") ELSE P.ok]))
=============================================================================
