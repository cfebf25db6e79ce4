----------------------------- MODULE QueryTrace -----------------------------
(* Judges recorded queries: each line names a table (file), the query and   *)
(* what the collection returned.                                            *)
EXTENDS Query, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
Env == JsonDeserialize(IOEnv.VQ_ENV)
VARIABLE i
Init == i \in 1..Len(Log)
Next == FALSE /\ UNCHANGED i
R == Log[i]
T == Env.tables[R.table]
E == [lits |-> Env.lits, names |-> Env.names, ctx |-> T.ctx, fq |-> T.fq, key |-> T.key]
Base == {R.base[j] : j \in 1..Len(R.base)}
PF == IF R.f = <<>> THEN <<>> ELSE Parse(R.f).a
Q == [f |-> PF, o |-> [j \in 1..Len(R.o) |-> [e |-> Parse(R.o[j].ts).a, d |-> R.o[j].d]], mode |-> R.mode, top |-> R.top, skip |-> R.skip, max |-> R.max]
Known == (R.f = <<>> \/ Parse(R.f).ok = "ok") /\ \A j \in 1..Len(R.o) : Parse(R.o[j].ts).ok = "ok"
Verdict == IF ~Known THEN ""
           ELSE IF ~QueryOK(E, Q, Base, R.res) THEN "rows"
           ELSE IF \E j \in 1..Len(R.rows) : ~SelOK(E, R.sel, R.rows[j].r, R.rows[j].vs) THEN "select"
           ELSE IF \E j \in 1..Len(R.rows) : \E k \in 1..Len(R.rows[j].ex) :
                  LET x == R.rows[j].ex[k] IN {x.got[m] : m \in 1..Len(x.got)} # {x.want[m] : m \in 1..Len(x.want)} \/ Len(x.got) # Len(x.want)
                THEN "expand"
           ELSE ""
Judge == LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> i, why |-> v]))
Stat == PrintT(ToJson([k |-> IF ~Known THEN "unknown" ELSE LET RE == RowEval(E, Q, Base) IN
          IF Undefined(RE, Q) THEN "undefined" ELSE IF Errors(RE) THEN "error" ELSE "judged"]))
=============================================================================
