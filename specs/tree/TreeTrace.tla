----------------------------- MODULE TreeTrace -----------------------------
(* Judges trees that the real code wrote, read, copied and compared.         *)
EXTENDS Tree, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
(* an element inside, and whether white space is preserved around it *)
RECURSIVE Inside(_, _, _)
Inside(e, path, keep) ==
  IF path = <<>> THEN [e |-> e, keep |-> keep]
  ELSE LET es == SelectSeq(e.cs, LAMBDA x : x.k = "e") IN Inside(es[path[1] + 1], Tail(path), SpaceOf(e, keep, XSpace))
Agree(r, w, x) ==
  LET a == Inside(Given(r.tree), IF w.how = "inner" THEN r.path ELSE <<>>, FALSE) IN Canon(x, a.keep) = Canon(a.e, a.keep)
(* a text that was written, as an independent parser reads it: raw is its qualified tree *)
WrittenOK(r, w) == w.st = "ok" /\ w.raw # <<>> /\ (LET x == w.raw[1] IN ~NSErr(x, <<>>) /\ ~Undeclared(x, <<>>) /\ Agree(r, w, Expand(x, <<>>)))
(* and as the real parser reads it *)
AgainOK(r, w) == w.back # <<>> /\ Agree(r, w, Given(w.back[1]))
WriteOK(r) == \A j \in 1..Len(r.out) : WrittenOK(r, r.out[j]) /\ AgainOK(r, r.out[j])
CopyOK(r) == r.copy # <<>> /\ Tidy(Given(r.copy[1])) = Tidy(Given(r.tree))
ReadOK(r) ==
  IF Undeclared(r.raw, <<>>) THEN r.st \in {"ok", "err"}
  ELSE IF NSErr(r.raw, <<>>) THEN r.st = "err"
  ELSE r.st = "ok" /\ Tidy(Given(r.tree[1])) = Tidy(Expand(r.raw, <<>>))
CmpOK(r) ==
  LET a == Tidy(Given(r.a)) b == Tidy(Given(r.b)) IN
  /\ r.ab = 0 - r.ba /\ (a = b => r.ab = 0) /\ (~SameTree(a, b) => r.ab # 0)
Parts(r) ==
  CASE r.op = "write" -> (IF WriteOK(r) THEN {} ELSE {"write"}) \union (IF CopyOK(r) THEN {} ELSE {"copy"})
    [] r.op = "read" -> IF ReadOK(r) THEN {} ELSE {"read"}
    [] r.op = "cmp" -> IF CmpOK(r) THEN {} ELSE {"cmp"}
Want(r) == IF r.op = "read" THEN IF NSErr(r.raw, <<>>) THEN <<>> ELSE <<Tidy(Expand(r.raw, <<>>))>> ELSE <<>>
Judge == LET b == Parts(R) IN
  PrintT(ToJson([bad |-> IF b = {} THEN 0 ELSE i, i |-> i, parts |-> b, op |-> R.op, err |-> IF R.op = "read" THEN NSErr(R.raw, <<>>) ELSE FALSE,
                 want |-> IF b = {} THEN <<>> ELSE Want(R)]))
============================================================================
