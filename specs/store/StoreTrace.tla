----------------------------- MODULE StoreTrace -----------------------------
(* Judges recorded histories of entity containers.  The log is a sequence   *)
(* of lines; a line with t="init" starts a history (schema, number of keys),*)
(* a line with t="op" records one operation, its outcome and the view of    *)
(* the container after it.  Each history is replayed through Apply from its *)
(* own initial state; the first line of a history that is not explained is  *)
(* printed with the clause that fails, and the history is left there.       *)
EXTENDS EntityStore, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VQ_LOG)
Starts == {i \in 1..Len(Log) : Log[i].t = "init"}

VARIABLES h, l, st
vars == <<h, l, st>>
sc == Log[h].sc

\* generated keys: any key that is not in use
AutoOK(op, s) == ("auto" \in DOMAIN op /\ op.auto) =>
   LET ts == IF op.op = "navins" THEN Tgt(sc, NavSeq(sc, op.s)[op.n]) ELSE op.s
       k  == IF op.op = "navins" THEN op.t ELSE op.k IN
   k \in DOMAIN s.e[ts] => ~Exists(s, ts, k)

Line == Log[l + 1]
Result == Apply(sc, st, Line.op)
Clause ==
  IF ~AutoOK(Line.op, st) THEN "generated key is in use"
  ELSE LET r == Result IN
    IF r.err # Line.err THEN "outcome"
    ELSE IF View(sc, r.st) # Line.view THEN "state"
    ELSE IF ~Integrity(sc, r.st) THEN "integrity"
    ELSE "ok"

Init == /\ h \in Starts /\ l = h /\ st = Empty(Log[h].sc, 0..(Log[h].keys))
Live == l < Len(Log) /\ Log[l + 1].t = "op"
Next == /\ Live
        /\ Clause = "ok"
        /\ l' = l + 1 /\ st' = Result.st /\ UNCHANGED h

Judge == Live => \/ Clause = "ok"
                 \/ PrintT(ToJson([h |-> h, l |-> l + 1, clause |-> Clause, err |-> Result.err, view |-> View(sc, Result.st)]))
Inv == Integrity(sc, st)
Done == TRUE
=============================================================================
