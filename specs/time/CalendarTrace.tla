--------------------------- MODULE CalendarTrace ----------------------------
(* Judges batches of observations of the real date code.                   *)
EXTENDS Calendar, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
Same(got, want, st) == IF want = Fail THEN st = "refused" ELSE st = "ok" /\ got = want
Trs == <<0, 1, 2, 3, 4, 5, 6, 7>>
TextsOK(ts, x, T(_, _, _)) == \A k \in 1..Len(Trs), b \in {1, 2} : ts[b][k] = T(x, b = 1, Trs[k])
DayOK(x) ==
  LET d == OfNo(x.n)  y == Y4(d)  wy == WeekYear(x.n) IN
  /\ x.st = "ok"
  /\ x.cal = <<d.c, d.y, d.m, d.d>>
  /\ x.ord = <<d.c, d.y, Ord(y, d.m, d.d)>>
  /\ x.wk = <<wy \div 100, (wy % 100) \div 10, wy % 10, Week(x.n), Weekday(x.n)>>
  /\ JAbs(x.jul[1], x.jul[2], x.jul[3]) = x.n /\ x.jul[2] \in 1..12 /\ x.jul[3] >= 1
  /\ x.jul[3] <= (IF x.jul[2] = 2 THEN (IF JLeap(x.jul[1]) THEN 29 ELSE 28) ELSE MonthLen(1, x.jul[2]))
  /\ x.leap = Leap(y) /\ x.abs = x.n
  /\ \A k \in 1..Len(x.back) : x.back[k] = d
  /\ TextsOK(x.ct, d, CalText) /\ TextsOK(x.ot, d, OrdText) /\ TextsOK(x.wt, d, WeekText)
(* every written form read back, with the day itself as the base           *)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
ReadOK(x) ==
  LET f == FormOf(x.s)  b == IF x.b = <<>> THEN Fail ELSE x.b[1]
      part == \E k \in 1..Len(x.s) : FormOf(SubSeq(x.s, 1, k)) # "" IN
  IF f = "" THEN part \/ x.st = "refused"       \* trailing text after a date is left open
  ELSE LET w == Read(x.s, f, b) IN Same(x.got, w, x.st) /\ (w = Fail \/ x.f = CodesOf[f])
PartOK(x) ==     \* reduced precision
  /\ x.st = "ok" /\ x.p = Prec(x.d) /\ x.full = (x.d.d # None)
  /\ TextsOK(x.ct, x.d, CalText) /\ TextsOK(x.wt, x.d, WeekText)
  /\ (x.d.w # None \/ TextsOK(x.ot, x.d, OrdText))
OffsetOK(x) == Same(x.got, Offset(x.x, x.o[1], x.o[2], x.o[3], x.o[4], x.o[5]), x.st)
CmpOK(x) ==
  IF Prec(x.a) # Prec(x.b) THEN x.st = "refused"
  ELSE x.st = "ok" /\ x.got = Cmp(x.a, x.b) /\ (x.a = x.b => x.hash)
MakeOK(x) ==
  LET v == x.v IN
  Same(x.got, CASE x.how = "cal" -> (IF v[1] \in 0..99 /\ v[2] \in 0..99 THEN MkCal(v[1] * 100 + v[2], v[3], v[4]) ELSE Fail)
                [] x.how = "ord" -> (IF v[1] \in 0..99 /\ v[2] \in 0..99 THEN MkOrd(v[1] * 100 + v[2], v[3]) ELSE Fail)
                [] x.how = "week" -> (IF v[1] \in 0..99 /\ v[2] \in 0..9 /\ v[3] \in 0..9 THEN MkWeekDay(v[1] * 100 + v[2] * 10 + v[3], v[4], v[5]) ELSE Fail)
                [] x.how = "abs" -> (IF InRange(v[1]) THEN OfNo(v[1]) ELSE Fail)
                [] x.how = "jul" -> LET n == JAbs(v[1], v[2], v[3]) IN IF InRange(n) THEN OfNo(n) ELSE Fail, x.st)
Bads == {j \in 1..Len(R.xs) : ~(CASE R.k = "day" -> DayOK(R.xs[j]) [] R.k = "read" -> ReadOK(R.xs[j]) [] R.k = "part" -> PartOK(R.xs[j])
                                  [] R.k = "offset" -> OffsetOK(R.xs[j]) [] R.k = "cmp" -> CmpOK(R.xs[j]) [] R.k = "make" -> MakeOK(R.xs[j]))}
Want(x) == CASE R.k = "read" -> ToString(IF FormOf(x.s) = "" THEN "refused" ELSE Read(x.s, FormOf(x.s), IF x.b = <<>> THEN Fail ELSE x.b[1]))
             [] R.k = "offset" -> ToString(Offset(x.x, x.o[1], x.o[2], x.o[3], x.o[4], x.o[5])) [] OTHER -> ""
Judge == PrintT(ToJson([bad |-> IF Bads = {} THEN 0 ELSE i, xs |-> Bads, want |-> {<<j, Want(R.xs[j])>> : j \in Bads}]))
=============================================================================
