---------------------------- MODULE MigrateTrace ----------------------------
(* Version 1 items migrated by the real code and run, judged by Migrate.      *)
EXTENDS Migrate, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
VARIABLE i
W == 64

Var(o, id) == LET js == {j \in 1..Len(o.vars) : o.vars[j].id = id} IN IF js = {} THEN <<>> ELSE <<o.vars[CHOOSE j \in js : TRUE]>>
RunOk(X, R, o) ==
  LET s == Score(X, R)
      vbad == {j \in 1..Len(X.vars) : LET g == Var(o, Ident(X.vars[j].id)) IN
                 \/ g = <<>>
                 \/ g[1].b # X.vars[j].base
                 \/ (Len(s.v[j]) # 2 /\ g[1].v # s.v[j])}
      f == Var(o, FEEDBACK)
      many == {j \in 1..Len(X.resps) : Many(X.resps[j]) /\ X.conds # <<>> /\
                 LET g == Var(o, Ident(X.resps[j].id)) IN
                 g = <<>> \/ (IF X.resps[j].card = "ordered" THEN g[1].v # R[j] ELSE ~SameBag(g[1].v, R[j]))} IN
  CASE o.st # "ok" -> o.st
    [] vbad # {} -> "variable " \o ToString(CHOOSE j \in vbad : TRUE) \o " is " \o ToString(Var(o, Ident(X.vars[CHOOSE j \in vbad : TRUE].id)))
                    \o ", not " \o ToString(s.v[CHOOSE j \in vbad : TRUE])
    [] Shown(X) /\ (f = <<>> \/ ~SameBag(f[1].v, s.fb)) -> "feedback " \o ToString(f) \o ", not " \o ToString(s.fb)
    [] many # {} -> "the blanks of response " \o ToString(CHOOSE j \in many : TRUE) \o " are not gathered"
    [] OTHER -> ""

(* neighbouring words may be joined: only their characters count *)
Join(c) == [c EXCEPT !.txt = Concat(c.txt)]
Joins(o) == [o EXCEPT !.ch = [k \in 1..Len(o.ch) |-> Join(o.ch[k])]]
JoinAll(fs) == [j \in 1..Len(fs) |-> Join(fs[j])]
Norm1(o) == [o EXCEPT !.min = Zero(o.min), !.max = Zero(o.max)]
DNorm(X, d) == IF \E j \in 1..Len(X.resps) : Many(X.resps[j]) /\ \E k \in 1..Len(Parts(X.resps[j])) : Parts(X.resps[j])[k] = d.id THEN [d EXCEPT !.c = ""] ELSE d
DSet(X, S0) == {DNorm(X, d) : d \in S0}
Why(X, o) ==
  LET D == DSet(X, {o.decls[j] : j \in 1..Len(o.decls)})
      E == DSet(X, Decls(X))
      off == [j \in 1..Len(Offers(X)) |-> Joins(Offers(X)[j])]
      got == [j \in 1..Len(o.inters) |-> Joins(o.inters[j])]
      ib == IF Len(o.inters) # Len(off) THEN {0} ELSE {j \in 1..Len(off) : \/ [off[j] EXCEPT !.min = 0, !.max = 0] # [got[j] EXCEPT !.min = 0, !.max = 0]
              \/ (off[j].k = "ChoiceInteraction" /\ Norm1(got[j]) # off[j])}
      rb == {j \in 1..Len(X.runs) : RunOk(X, X.runs[j], o.runs[j]) # ""}
      r1 == CHOOSE j \in rb : \A k \in rb : j <= k IN
  CASE o.id # Ident(X.id) -> <<"identifier", ToString(Ident(X.id))>>
    [] X.title # "" /\ o.title # X.title -> <<"title", X.title>>
    [] D # E -> <<"declarations", "expected " \o ToString(E \ D) \o " instead of " \o ToString(D \ E)>>
    [] Concat(o.toks) # Concat(Words(X)) -> <<"content", "expected " \o ToString(Words(X)) \o " found " \o ToString(o.toks)>>
    [] ib = {0} -> <<"interactions", "expected " \o ToString(Len(off)) \o " interactions">>
    [] ib # {} -> <<"interaction", LET j == CHOOSE j \in ib : TRUE IN "expected " \o ToString(off[j]) \o " found " \o ToString(o.inters[j])>>
    [] JoinAll(o.fbs) # JoinAll([j \in 1..Len(X.fbs) |-> Feedback(X.fbs[j])]) -> <<"feedback", ToString([j \in 1..Len(X.fbs) |-> Feedback(X.fbs[j])])>>
    [] rb # {} -> <<"score", "responses " \o ToString(X.runs[r1]) \o ": " \o RunOk(X, X.runs[r1], o.runs[r1])>>
    [] OTHER -> <<>>

Verdict(X) ==
  IF X.err # "" THEN <<"error", X.err>>
  ELSE IF X.n # 1 THEN <<"items", ToString(X.n)>>
  ELSE LET bad == {j \in 1..Len(X.obs) : Why(X, X.obs[j]) # <<>>} IN
       IF bad = {} THEN <<>> ELSE LET j == CHOOSE j \in bad : \A k \in bad : j <= k IN Why(X, X.obs[j]) \o <<X.obs[j].how>>

Judge == LET X == Log[i]  w == Verdict(X) IN
  PrintT(ToJson([bad |-> IF w = <<>> THEN 0 ELSE i, n |-> Len(X.runs), why |-> IF w = <<>> THEN <<>> ELSE w]))
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
=============================================================================
