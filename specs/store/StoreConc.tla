----------------------------- MODULE StoreConc ------------------------------
(* Judges concurrent histories of an entity container: each line of the log *)
(* is one execution: schema, operations done before the threads start, the  *)
(* calls and returns of the threads in the order they happened, and the     *)
(* view when all have ended.  The history is accepted iff each operation    *)
(* can be given one instant between its call and its return such that the   *)
(* operations, performed in that order by Apply, give the outcomes seen and *)
(* the final view (linearizability).                                        *)
EXTENDS EntityStore, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VQ_LOG)
Hist == {i \in 1..Len(Log) : Log[i].t = "scenario"}

VARIABLES h, l, st, pend
vars == <<h, l, st, pend>>
H == Log[h]
sc == H.sc

RECURSIVE Fold(_, _, _)
Fold(c, s, ops) == IF ops = <<>> THEN s ELSE Fold(c, Apply(c, s, Head(ops)).st, Tail(ops))

Threads == 1..3
Idle == [s |-> "idle"]

AutoOK(op, s) == ("auto" \in DOMAIN op /\ op.auto) =>
   LET ts == IF op.op = "navins" THEN Tgt(sc, NavSeq(sc, op.s)[op.n]) ELSE op.s
       k  == IF op.op = "navins" THEN op.t ELSE op.k IN ~Exists(s, ts, k)

Do(op) == IF op.op = "get"
          THEN IF Exists(st, op.s, op.k) THEN [st |-> st, err |-> "ok", r |-> st.e[op.s][op.k]]
                                         ELSE [st |-> st, err |-> "KeyError", r |-> -1]
          ELSE IF op.op = "scan"    \* reading everything: fails only if the entity it starts from does not exist
          THEN [st |-> st, err |-> IF Exists(st, op.s, op.k) THEN "ok" ELSE "KeyError", r |-> -1]
          ELSE LET q == Apply(sc, st, op) IN [st |-> q.st, err |-> q.err,
                 r |-> IF "auto" \in DOMAIN op /\ op.auto /\ q.err = "ok"
                       THEN IF op.op = "navins" THEN op.t ELSE op.k ELSE -1]

Init == /\ h \in Hist /\ l = 0
        /\ st = Fold(Log[h].sc, Empty(Log[h].sc, 0..Log[h].keys), Log[h].init)
        /\ pend = [t \in Threads |-> Idle]

Ev == H.log[l + 1]
Call == /\ l < Len(H.log) /\ Ev.e = "call"
        /\ pend' = [pend EXCEPT ![Ev.th] = [s |-> "called", op |-> Ev.op]]
        /\ l' = l + 1 /\ UNCHANGED <<h, st>>
Lin == \E t \in Threads : /\ pend[t].s = "called" /\ AutoOK(pend[t].op, st)
        /\ LET q == Do(pend[t].op) IN
           /\ st' = q.st /\ pend' = [pend EXCEPT ![t] = [s |-> "done", err |-> q.err, r |-> q.r]]
        /\ UNCHANGED <<h, l>>
Ret == /\ l < Len(H.log) /\ Ev.e = "ret"
       /\ pend[Ev.th].s = "done" /\ pend[Ev.th].err = Ev.err /\ pend[Ev.th].r = Ev.r
       /\ pend' = [pend EXCEPT ![Ev.th] = Idle]
       /\ l' = l + 1 /\ UNCHANGED <<h, st>>
Next == Call \/ Lin \/ Ret

Inv == Integrity(sc, st)
Accept == (l = Len(H.log) /\ H.problem = "" /\ View(sc, st) = H.final) => PrintT(ToJson([acc |-> h]))
=============================================================================
