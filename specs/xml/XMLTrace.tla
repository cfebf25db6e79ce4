----------------------------- MODULE XMLTrace -------------------------------
(* Judges what the real parser made of each document.                       *)
EXTENDS XML, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
Got == [j \in 1..Len(R.ev) |-> [k |-> R.ev[j].k, n |-> R.ev[j].n, t |-> R.ev[j].t, a |-> {R.ev[j].a[m] : m \in 1..Len(R.ev[j].a)}]]
Out(r) == IF r.u THEN [k |-> "unspecified", bad |-> 0, why |-> ""]
  ELSE IF ~r.ok THEN [k |-> "refused", bad |-> IF R.res = "nwf" THEN 0 ELSE i, why |-> IF R.res = "ok" THEN "accepted" ELSE "exception"]
  ELSE IF R.res # "ok" THEN [k |-> "accepted", bad |-> i, why |-> "refused"]
  ELSE [k |-> "accepted", bad |-> IF Got = r.v THEN 0 ELSE i, why |-> "content"]
Judge == PrintT(ToJson(Out(Parse(R.src))))
=============================================================================
