----------------------------- MODULE ClockTrace -----------------------------
(* Judges batches of observations of the real time, time point and         *)
(* duration code.                                                           *)
EXTENDS Clock, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
T4(x) == x.h \o x.z      \* not used
TR(v) == IF v = <<>> THEN Bad ELSE Mk(v[1], v[2], v[3], <<v[4], v[5]>>)      \* a time as the driver writes it: hour, minute, second, zone
Same(got, want, st) == IF want = Bad THEN st = "refused" ELSE st = "ok" /\ TR(got) = want
Prefix(s) == \E k \in 1..Len(s) : Parse(SubSeq(s, 1, k)).ok
ReadWant(x) == LET q == Parse(x.s) IN IF ~q.ok THEN <<Bad, 0>> ELSE ReadT(q, TR(x.b))
ReadOK(x) ==
  LET q == Parse(x.s) IN
  IF ~q.ok THEN Prefix(x.s) \/ x.st = "refused"          \* text after a time is left open
  ELSE q.leap \/ ~q.exact \/ (LET w == ReadWant(x) IN Same(x.got, w[1], x.st) /\ (w[1] = Bad \/ (x.over = w[2] /\ x.f = q.fmt)))
MakeWant(x) == LET z == MkZone(x.z[1], x.z[2], x.z[3]) IN IF ZoneBad(z) THEN Bad ELSE Mk(x.v[1], x.v[2], x.v[3], z)
MakeOK(x) == LET w == MakeWant(x) IN
  /\ Same(x.got, w, x.st)
  /\ w # Bad => x.copy /\ (IF w.p = 3 THEN x.total = w.u ELSE x.total = -1) /\ x.texts = TRUE
TextWant(x) == LET r == TimeText(TR(x.t), x.bas, x.tr, x.ndp, x.short, x.dp) IN r
TextOK(x) == IF TextWant(x) = NoText THEN x.st = "refused" ELSE x.st = "ok" /\ x.s = TextWant(x)
OffWant(x) == OffsetT(TR(x.t), x.o[1], x.o[2], x.o[3])
OffOK(x) == LET w == OffWant(x) IN Same(x.got, w[1], x.st) /\ (w[1] = Bad \/ x.over = w[2])
ShWant(x) == Shift(TR(x.t), MkZone(x.z[1], x.z[2], x.z[3]))
ShOK(x) == LET w == ShWant(x) IN Same(x.got, w[1], x.st) /\ (w[1] = Bad \/ x.over = w[2])
PrOK(x) == ~Exact(TR(x.t), x.p, x.cut) \/ Same(x.got, ToPrec(TR(x.t), x.p, x.cut), x.st)
SecWant(x) == IF x.n < 0 \/ x.n >= DayU THEN Bad ELSE [p |-> 3, u |-> x.n, z |-> NoZone]
CmpOK(x) == LET a == TR(x.a)  b == TR(x.b) IN
  IF a.p # b.p \/ (IF a.z = NoZone THEN b.z # NoZone ELSE b.z = NoZone \/ Off(a.z) # Off(b.z)) THEN x.st = "refused"
  ELSE x.st = "ok" /\ x.got = CmpT(a, b) /\ (x.got = 0 => x.hash)
(* ------------------------------------------------------------- points    *)
PT(v) == [d |-> v.d, t |-> TR(v.t)]
Kinds == <<"cal", "ord", "week">>
PText(x) == LET p == PT(x.p)  d == OfNo(p.d)
    ds == CASE x.kind = "cal" -> CalText(d, x.bas, x.dtr) [] x.kind = "ord" -> OrdText(d, x.bas, x.dtr) [] x.kind = "week" -> WeekText(d, x.bas, x.dtr)
  IN IF ds = <<>> THEN <<>> ELSE ds \o <<84>> \o TimeText(p.t, x.bas, 0, x.ndp, x.short, x.dp)
(* also read back, with the point's own date as the base                    *)
PTextOK(x) == LET w == PText(x) IN IF w = <<>> THEN x.st = "refused" ELSE x.st = "ok" /\ x.s = w /\ (LET q == PT(x.back) IN x.ndp = 3 => q = PT(x.p))
PRead(x) ==      \* <<kind, point, format>>: "no" refused, "open"
  LET k == First(x.s, {84}) IN
  IF k = 0 THEN <<IF FormOf(x.s) # "" THEN "no" ELSE "any", 0, 0>>
  ELSE LET ds == Cut(x.s, 1, k - 1)  ts == Cut(x.s, k + 1, Len(x.s))  f == FormOf(ds)  q == Parse(ts) IN
    IF f = "" THEN <<"any", 0, 0>>
    ELSE IF ts # <<>> /\ ts[1] = 84 THEN <<"no", 0, 0>>
    ELSE IF ~q.ok THEN <<IF Prefix(ts) /\ ts[1] # 45 THEN "any" ELSE "no", 0, 0>>
    ELSE IF q.leap \/ ~q.exact THEN <<"any", 0, 0>>
    ELSE LET d == Read(ds, f, IF x.b = <<>> THEN Fail ELSE x.b[1])  t == ReadT(q, Bad) IN
      IF d = Fail \/ d.d = None \/ q.trunc \/ t[1] = Bad \/ ~((q.sty # "e" /\ f \in Basic) \/ (q.sty # "b" /\ f \in Extended)) THEN <<"no", 0, 0>>
      ELSE <<"ok", [d |-> DayNo(d), t |-> t[1]], CodesOf[f] \o <<84>> \o q.fmt>>
PReadOK(x) == LET w == PRead(x) IN w[1] = "any" \/ (w[1] = "no" /\ x.st = "refused") \/ (w[1] = "ok" /\ x.st = "ok" /\ PT(x.got) = w[2] /\ x.f = w[3])
PShOK(x) == LET w == ShiftP(PT(x.p), MkZone(x.z[1], x.z[2], x.z[3])) IN IF w.t = Bad THEN x.st = "refused" ELSE x.st = "ok" /\ PT(x.got) = w
PCmpOK(x) == LET w == CmpP(PT(x.a), PT(x.b)) IN IF w = 9 THEN x.st = "refused" ELSE x.st = "ok" /\ x.got = w /\ (w = 0 => x.hash)
UnixOK(x) == x.st = "ok" /\ PT(x.got) = [d |-> 719163 + x.days, t |-> [p |-> 3, u |-> x.u, z |-> NoZone]]
PPrOK(x) == LET p == PT(x.p) IN ~Exact(p.t, x.pr, x.cut) \/ (x.st = "ok" /\ PT(x.got) = [p EXCEPT !.t = ToPrec(p.t, x.pr, x.cut)])
(* ---------------------------------------------------------- durations    *)
DPrefix(s) == \E k \in 1..Len(s) - 1 : ReadD(SubSeq(s, 1, k)).ok
DReadOK(x) ==
  LET q == ReadD(x.s) IN
  IF ~q.ok THEN DPrefix(x.s) \/ x.st = "refused"
  ELSE ~q.exact \/ (x.st = "ok" /\ x.got = q.v /\ x.eq /\ LET y == ReadD(x.back) IN y.ok /\ y.v = q.v)
DTextOK(x) == x.st = "ok" /\ x.s = DurText(x.v, x.zeros, x.ndp, x.dp)
OK(x) == CASE R.k = "read" -> ReadOK(x) [] R.k = "make" -> MakeOK(x) [] R.k = "text" -> TextOK(x) [] R.k = "offset" -> OffOK(x) [] R.k = "shift" -> ShOK(x) [] R.k = "prec" -> PrOK(x)
           [] R.k = "secs" -> Same(x.got, SecWant(x), x.st) [] R.k = "cmp" -> CmpOK(x) [] R.k = "ptext" -> PTextOK(x) [] R.k = "pread" -> PReadOK(x) [] R.k = "pshift" -> PShOK(x)
           [] R.k = "pcmp" -> PCmpOK(x) [] R.k = "unix" -> UnixOK(x) [] R.k = "pprec" -> PPrOK(x) [] R.k = "dread" -> DReadOK(x) [] R.k = "dtext" -> DTextOK(x)
Want(x) == CASE R.k = "read" -> ToString(ReadWant(x)) [] R.k = "text" -> ToString(TextWant(x)) [] R.k = "offset" -> ToString(OffWant(x)) [] R.k = "shift" -> ToString(ShWant(x))
             [] R.k = "ptext" -> ToString(PText(x)) [] R.k = "pread" -> ToString(PRead(x)) [] R.k = "pcmp" -> ToString(CmpP(PT(x.a), PT(x.b))) [] R.k = "dread" -> ToString(ReadD(x.s)) [] OTHER -> ""
Bads == {j \in 1..Len(R.xs) : ~OK(R.xs[j])}
Judge == PrintT(ToJson([bad |-> IF Bads = {} THEN 0 ELSE i, xs |-> Bads, want |-> {<<j, Want(R.xs[j])>> : j \in Bads}]))
=============================================================================
