------------------------------ MODULE LexTrace ------------------------------
(* Judges what the real code made of texts of simple types.                  *)
EXTENDS Lex, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
Want(r) ==
  CASE r.k = "replace" -> Replace(r.s) [] r.k = "collapse" -> Collapse(r.s)
    [] r.k = "int" -> Whl(r.s) [] r.k = "bool" -> Bool(r.s) [] r.k = "dec" -> Dec(r.s)
    [] r.k = "dbl" -> Dbl(r.s, -320, 307) [] r.k = "flt" -> Dbl(r.s, -40, 38)
EnumOK(r) ==
  LET vs == Values(r.t, r.s, r.lower)
      ws == Words(r.s, <<>>)
      set == {vs[j] : j \in 1..Len(vs)} IN
  IF 0 \in set THEN r.st = "err"
  ELSE /\ r.st = "ok" /\ r.list = vs
       /\ Words(r.enc, <<>>) = [j \in 1..Len(vs) |-> NameOf(r.t, vs[j])] /\ Collapse(r.enc) = r.enc
       /\ {<<d.v, d.w>> : d \in {r.dict[j] : j \in 1..Len(r.dict)}} = {<<v, ws[First(vs, v)]>> : v \in set}
       /\ LET n == Words(r.denc, <<>>) IN
            {n[j] : j \in 1..Len(n)} = {NameOf(r.t, v) : v \in set} /\ Len(n) = Cardinality(set)
            /\ \A j \in 1..Len(n) - 1 : Find(r.t, n[j]) < Find(r.t, n[j + 1])
OK(r) == IF r.k = "enum" THEN EnumOK(r) ELSE IF Want(r) = Err THEN r.st = "err" ELSE r.st = "ok" /\ r.got = Want(r)
Judge == PrintT(ToJson([bad |-> IF OK(R) THEN 0 ELSE i, i |-> i, k |-> R.k, want |-> IF OK(R) \/ R.k = "enum" THEN <<>> ELSE Want(R),
                        err |-> R.st = "err"]))
=============================================================================
