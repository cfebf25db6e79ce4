----------------------------- MODULE FormTrace ------------------------------
(* Judges the forms the real code made of a test (many of each).           *)
EXTENDS Forms, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
RECURSIVE MixedAny(_)
MixedAny(s) == \E j \in 1..N(s) : s.kids[j].sec /\ ((s.shuf /\ Mixed(s.kids[j])) \/ MixedAny(s.kids[j]))
Wrong == {j \in 1..Len(R.forms) : ~FormOK(R.parts, R.forms[j].q)}
Places(q, x) == SelectSeq([p \in 1..Len(q) |-> p], LAMBDA p : q[p] = x)
Lookup == {j \in 1..Len(R.forms) : \E k \in 1..Len(R.forms[j].find) :
   LET f == R.forms[j].find[k] IN f.at # [p \in 1..Len(Places(R.forms[j].q, f.id)) |-> Places(R.forms[j].q, f.id)[p] - 1]}
S1 == R.parts[1].kids[1]
(* all forms of a shuffled section of items and invisible sections of items, all of them selected *)
Flat(s) == s.shuf /\ s.sel < 0 /\ \A j \in 1..N(s) : LET k == s.kids[j] IN k.sec =>
  Mixed(k) /\ k.sel < 0 /\ N(k) > 0 /\ \A m \in 1..N(k) : ~k.kids[m].sec /\ ~k.kids[m].fix
Leaf(k) == IF k.sec THEN [m \in 1..N(k) |-> k.kids[m].id] ELSE <<k.id>>
RECURSIVE Leaves(_, _)
Leaves(s, n) == IF n = 0 THEN <<>> ELSE Leaves(s, n - 1) \o Leaf(s.kids[n])
FlatAll(s) == LET f == Leaves(s, N(s)) IN IF Len(f) > 5 THEN {} ELSE
  {x \in {[j \in 1..Len(f) |-> f[p[j]]] : p \in Permutations(1..Len(f))} : Ok(s, x, Secs(s))}
Missing == IF ~R.full \/ CanErr(S1) \/ (MixedAny(S1) /\ ~Flat(S1)) THEN {} ELSE
  IF MixedAny(S1) THEN LET a == FlatAll(S1) IN IF Cardinality(a) > 40 THEN {} ELSE a \ {SubSeq(R.forms[j].q, 4, Len(R.forms[j].q) - 2) : j \in 1..Len(R.forms)} ELSE
  LET a == All(S1) IN IF Cardinality(a) > R.most THEN {} ELSE a \ {SubSeq(R.forms[j].q, 4, Len(R.forms[j].q) - 2) : j \in 1..Len(R.forms)}
Say(b, why) == PrintT(ToJson([bad |-> b, why |-> why]))
Judge ==
  IF R.crash # "" THEN Say(i, R.crash)
  ELSE IF R.err /\ ~FormErr(R.parts) THEN Say(i, "SelectionError although every selection is possible")
  ELSE IF Wrong # {} THEN Say(i, "the form " \o ToString(R.forms[CHOOSE j \in Wrong : TRUE].q) \o " is not allowed")
  ELSE IF Lookup # {} THEN Say(i, "find gives the wrong places in " \o ToString(R.forms[CHOOSE j \in Lookup : TRUE].q))
  ELSE IF Missing # {} THEN Say(i, "never gives the form " \o ToString(CHOOSE x \in Missing : TRUE))
  ELSE Say(0, "")
=============================================================================
