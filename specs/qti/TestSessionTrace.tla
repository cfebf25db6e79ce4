------------------------- MODULE TestSessionTrace --------------------------
(* Judges recorded test sessions: after every event, what can be seen.     *)
EXTENDS TestSession, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
T == Log[i]
Wrong(o, S1) == {j \in 1..Len(o.vars) : LET w == o.vars[j] IN ~Has(S1, w.id) \/ ~(LET d == S1[w.id] IN
    SameValue(w.val, d.val)
    /\ (d.k \in {"R", "O"} /\ w.d => SameValue(w.def, d.def)) /\ (d.k = "R" => SameValue(w.cor, d.cor))
    /\ (d.sv = <<>>) = (w.sv = <<>>) /\ (d.sv # <<>> => SameValue(w.sv[1], d.sv[1])))}
Seen(o, s) ==       \* what is wrong with the observation o in state s
  LET q == IF s.cur \in Items(T) THEN T.form[s.cur] ELSE ""
      V0 == Vars(T, s)
      w == Wrong(o, V0) IN
  IF o.cur # q THEN "the question is " \o o.cur \o " and should be " \o q
  ELSE IF o.part # (IF q = "" THEN "" ELSE T.nodes[q].part) THEN "the part is " \o o.part
  ELSE IF o.key # s.n \/ o.nkeys # s.n THEN "the key is number " \o ToString(o.key)
  ELSE IF w # {} THEN LET k == CHOOSE k \in w : TRUE IN "wrong value of " \o o.vars[k].id \o ": is " \o ToString(o.vars[k]) \o " and should be " \o (IF Has(V0, o.vars[k].id) THEN ToString(V0[o.vars[k].id]) ELSE "")
  ELSE ""
Nav(o, s) == IF s.cur \in Items(T) THEN {<<"SAVE", "key", "on">>, <<"SUBMIT", "key", "on">>} ELSE {<<"SAVE", "key", "off">>}
Bad(n, why) == [bad |-> i, n |-> n, why |-> why]
Fine(n) == [bad |-> 0, n |-> n, why |-> ""]
RECURSIVE Walk(_, _)
Walk(j, s) ==
  IF j > Len(T.obs) THEN Fine(j)
  ELSE LET r == Event(T, T.evs[j], s)  o == T.obs[j] IN
    IF r.st = "any" THEN (IF o.res \in {"ok", "err"} THEN Fine(j) ELSE Bad(j, "fails: " \o o.err))
    ELSE IF r.st # o.res THEN Bad(j, "is " \o o.res \o " " \o o.err \o " and should be " \o r.st)
    ELSE IF r.st \in {"err", "refused"} THEN Fine(j)
    ELSE LET w == Seen(o, r.s) IN
      IF w # "" THEN Bad(j, w)
      ELSE IF r.st = "ok" /\ {o.nav[k] : k \in 1..Len(o.nav)} # Nav(o, r.s) THEN Bad(j, "wrong buttons " \o ToString(o.nav))
      ELSE Walk(j + 1, r.s)
NamesOf == {T.vars[k].n : k \in 1..Len(T.vars)} \cup UNION {{T.vars[k].n \o "." \o y : y \in {T.vars[k].more[m] : m \in 1..Len(T.vars[k].more)}} : k \in 1..Len(T.vars)}
Judge == PrintT(ToJson(
  IF T.crash # "" THEN Bad(0, T.crash)
  ELSE LET s == Begun(T)  w == Seen(T.start, s) IN
    IF w # "" THEN Bad(0, w)
    ELSE IF {T.names[k] : k \in 1..Len(T.names)} # NamesOf THEN Bad(0, "wrong names of variables " \o ToString(T.names))
    ELSE Walk(1, s)))
=============================================================================
