------------------------------- MODULE Clock --------------------------------
(* Times of day, zones, time points and durations, and their ISO 8601      *)
(* texts.  Time is counted in eighths of a second: a time is a record      *)
(* [p, u, z]: precision (1 hour, 2 minute, 3 second), the eighths since    *)
(* midnight (its lowest part may have a fraction), and the zone <<d, o>>:  *)
(* direction -1, 0, 1 and offset in minutes, or NoZone.                     *)
EXTENDS Calendar

H == 28800
M == 480
S == 8
NoZone == <<9, 0>>
DayU == 24 * H
Bad == [p |-> 0, u |-> 0, z |-> NoZone]
Unit(p) == IF p = 1 THEN H ELSE IF p = 2 THEN M ELSE S
Part(t) ==      \* hour, minute, second in eighths of the unit, -8 if absent
  CASE t.p = 1 -> <<t.u \div (H \div 8), -8, -8>>
    [] t.p = 2 -> <<(t.u \div H) * 8, (t.u % H) \div (M \div 8), -8>>
    [] t.p = 3 -> <<(t.u \div H) * 8, ((t.u % H) \div M) * 8, t.u % M>>
Mk(h, m, s, z) ==   \* of parts in eighths
  LET p == IF m < 0 THEN 1 ELSE IF s < 0 THEN 2 ELSE 3 IN
  IF \/ h < 0 \/ h > 24 * 8 \/ m >= 60 * 8 \/ s >= 60 * 8
     \/ (m < 0 /\ s >= 0) \/ (m >= 0 /\ h % 8 # 0) \/ (s >= 0 /\ m % 8 # 0)
     \/ (h = 24 * 8 /\ (m > 0 \/ s > 0))
  THEN Bad ELSE [p |-> p, u |-> h * (H \div 8) + (IF m < 0 THEN 0 ELSE m * (M \div 8)) + (IF s < 0 THEN 0 ELSE s), z |-> z]
MkZone(d, h, m) == IF d = 9 THEN NoZone ELSE IF d = 0 THEN <<0, 0>> ELSE IF h < 0 \/ h > 23 \/ m > 59 THEN <<8, 0>> ELSE <<d, h * 60 + (IF m < 0 THEN 0 ELSE m)>>
ZoneBad(z) == z[1] = 8
Off(z) == z[1] * z[2]
(* hours, minutes and seconds to add, in eighths; the time and the days carried *)
AddU(t, n) == <<[t EXCEPT !.u = (t.u + n) % DayU], (t.u + n) \div DayU>>
OffsetT(t, hh, mm, ss) ==
  IF \/ (ss # 0 /\ t.p < 3) \/ (mm # 0 /\ t.p < 2) \/ (mm % 8 # 0 /\ t.p > 2) \/ (hh % 8 # 0 /\ t.p > 1) THEN <<Bad, 0>>
  ELSE AddU(t, hh * (H \div 8) + mm * (M \div 8) + ss)
Shift(t, z) ==
  IF t.z = NoZone \/ ZoneBad(z) \/ z = NoZone THEN <<Bad, 0>>
  ELSE LET n == (Off(z) - Off(t.z)) * M IN IF t.p = 1 /\ n % H # 0 THEN <<Bad, 0>> ELSE AddU([t EXCEPT !.z = z], n)
ToPrec(t, p, cut) == LET q == IF cut THEN Unit(p) ELSE Unit(p) \div 8 IN [t EXCEPT !.p = p, !.u = t.u - (t.u % q)]
Exact(t, p, cut) == cut \/ t.u % (Unit(p) \div 8) = 0
CmpT(a, b) == IF a.u = b.u THEN 0 ELSE IF a.u < b.u THEN -1 ELSE 1
(* a truncated time: the least one, not before the base, with those parts   *)
ExtendT(b, m, s) ==
  IF m < 0 THEN (IF s >= 60 * 8 THEN <<Bad, 0>> ELSE AddU(b, (s - (b.u % M)) % M))
  ELSE IF m >= 60 * 8 \/ s >= 60 * 8 \/ (s >= 0 /\ m % 8 # 0) THEN <<Bad, 0>>
  ELSE LET r == IF s < 0 THEN [b EXCEPT !.p = 2, !.u = b.u - (b.u % M)] ELSE b
           w == m * (M \div 8) + (IF s < 0 THEN 0 ELSE s) IN AddU(r, (w - (r.u % H)) % H)

(* -------------------------------------------------------------- texts    *)
DigitsOnly(s) == \A k \in 1..Len(s) : s[k] \in Digits
Val(s) == Num(s, Len(s))
First(s, C) == IF \E k \in 1..Len(s) : s[k] \in C THEN CHOOSE k \in 1..Len(s) : s[k] \in C /\ \A j \in 1..k - 1 : s[j] \notin C ELSE 0
Cut(s, a, b) == SubSeq(s, a, b)
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
Eighths(f) == (Val(f) * 8) \div Pow(Len(f))
EighthsExact(f) == Len(f) <= 6 /\ (Val(f) * 8) % Pow(Len(f)) = 0
(* the digits with an optional fraction, <<ok, integer digits, decimal sign or 0, fraction digits>> *)
Frac(s) == LET k == First(s, {44, 46}) IN
  IF k = 0 THEN <<TRUE, s, 0, <<>>>> ELSE <<k < Len(s) /\ DigitsOnly(Cut(s, k + 1, Len(s))), Cut(s, 1, k - 1), s[k], Cut(s, k + 1, Len(s))>>
Shape(s) == [k \in 1..Len(s) |-> IF s[k] \in Digits THEN 100 ELSE s[k]]
D2 == <<100, 100>>
Shapes == << <<D2, <<"h">>, "b">>, <<D2 \o D2, <<"h", "m">>, "b">>, <<D2 \o D2 \o D2, <<"h", "m", "s">>, "b">>, <<D2 \o <<58>> \o D2, <<"h", "m">>, "e">>, <<D2 \o <<58>> \o D2 \o <<58>> \o D2, <<"h", "m", "s">>, "e">>,
            << <<45>> \o D2, <<"m">>, "t">>, << <<45>> \o D2 \o D2, <<"m", "s">>, "t">>, << <<45>> \o D2 \o <<58>> \o D2, <<"m", "s">>, "t">>, << <<45, 45>> \o D2, <<"s">>, "t">> >>
Zones == << << <<90>>, 0, "">>, << <<43>> \o D2, 1, "">>, << <<43>> \o D2 \o D2, 1, "b">>, << <<43>> \o D2 \o <<58>> \o D2, 1, "e">>,
            << <<45>> \o D2, -1, "">>, << <<45>> \o D2 \o D2, -1, "b">>, << <<45>> \o D2 \o <<58>> \o D2, -1, "e">> >>
LetterOf(x) == CASE x = "h" -> 104 [] x = "m" -> 109 [] x = "s" -> 115
NamesOf(shape, parts) ==    \* the format: the digits named
  LET ps == [k \in 1..Len(shape) |-> IF shape[k] # 100 THEN shape[k] ELSE LetterOf(parts[(Cardinality({j \in 1..k : shape[j] = 100}) + 1) \div 2])] IN ps
OnlyD(s) == SelectSeq(s, LAMBDA c : c \in Digits)
(* parse the whole text: [ok, trunc, sty, parts, vals (eighths), exact, zone (or <<7,0>> for none given), fmt] *)
NoParse == [ok |-> FALSE]
ZoneOf(s) ==
  IF s = <<>> THEN [ok |-> TRUE, given |-> FALSE, z |-> NoZone, sty |-> "", fmt |-> <<>>]
  ELSE LET c == {k \in 1..Len(Zones) : Zones[k][1] = Shape(s)} IN
    IF c = {} THEN NoParse ELSE LET q == Zones[CHOOSE k \in c : TRUE]  d == OnlyD(s) IN
      [ok |-> TRUE, given |-> TRUE, z |-> IF q[2] = 0 THEN <<0, 0>> ELSE MkZone(q[2], Val(Cut(d, 1, 2)), IF Len(d) = 2 THEN -1 ELSE Val(Cut(d, 3, 4))), sty |-> q[3],
       fmt |-> [k \in 1..Len(s) |-> IF k = 1 THEN (IF s[1] = 45 THEN 43 ELSE s[1]) ELSE IF s[k] = 58 THEN 58 ELSE IF k <= 3 THEN 104 ELSE 109]]
Parse(s0) ==
  LET s == IF s0 # <<>> /\ s0[1] = 84 THEN Tail(s0) ELSE s0
      trunc == s # <<>> /\ s[1] = 45
      zk == IF trunc THEN 0 ELSE First(s, {90, 43, 45})
      body == IF zk = 0 THEN s ELSE Cut(s, 1, zk - 1)
      zone == ZoneOf(IF zk = 0 THEN <<>> ELSE Cut(s, zk, Len(s)))
      f == Frac(body)
      c == {k \in 1..Len(Shapes) : Shapes[k][1] = Shape(f[2])} IN
  IF ~f[1] \/ c = {} \/ ~zone.ok \/ (trunc /\ s # s0) THEN NoParse
  ELSE LET q == Shapes[CHOOSE k \in c : TRUE]  d == OnlyD(f[2])  n == Len(q[2])
           v == [k \in 1..n |-> Val(Cut(d, 2 * k - 1, 2 * k)) * 8 + (IF k = n /\ f[3] # 0 THEN Eighths(f[4]) ELSE 0)]
           at(x) == IF \E k \in 1..n : q[2][k] = x THEN v[CHOOSE k \in 1..n : q[2][k] = x] ELSE -8
           sty == IF trunc \/ q[2] = <<"h">> THEN "" ELSE q[3] IN
    IF zone.sty # "" /\ sty # "" /\ zone.sty # sty THEN NoParse
    ELSE [ok |-> TRUE, trunc |-> trunc, sty |-> IF sty # "" THEN sty ELSE zone.sty, h |-> at("h"), m |-> at("m"), s |-> at("s"), exact |-> f[3] = 0 \/ EighthsExact(f[4]), z |-> zone.z, given |-> zone.given,
          leap |-> at("s") >= 480 /\ at("s") < 488,
          fmt |-> NamesOf(q[1], q[2]) \o (IF f[3] = 0 THEN <<>> ELSE <<f[3], LetterOf(q[2][n])>>) \o zone.fmt]
(* the time and the days carried; the base Bad if there is none             *)
ReadT(q, b) ==
  IF ZoneBad(q.z) THEN <<Bad, 0>>
  ELSE IF q.trunc THEN (IF b = Bad THEN <<Bad, 0>> ELSE ExtendT(b, q.m, q.s))
  ELSE <<Mk(q.h, q.m, q.s, IF ~q.given /\ b # Bad THEN b.z ELSE q.z), 0>>

(* a truncation (0, 6 hour, 7 minute), a number of decimals, the decimal sign, whole-hour zones in short *)
Sep(bas) == IF bas THEN <<>> ELSE <<58>>
ZoneText(z, bas, short) ==
  IF z = NoZone THEN <<>> ELSE IF z[1] = 0 THEN <<90>>
  ELSE <<IF z[1] > 0 THEN 43 ELSE 45>> \o Dec(z[2] \div 60, 2) \o (IF short /\ z[2] % 60 = 0 THEN <<>> ELSE Sep(bas) \o Dec(z[2] % 60, 2))
NoText == <<0>>
TimeText(t, bas, tr, ndp, short, dp) ==
  LET a == Part(t)  w(k) == Dec(a[k] \div 8, 2)
      stem == CASE t.p = 1 /\ tr = 0 -> w(1) [] t.p = 2 /\ tr = 0 -> w(1) \o Sep(bas) \o w(2) [] t.p = 2 /\ tr = 6 -> <<45>> \o w(2)
                [] t.p = 3 /\ tr = 0 -> w(1) \o Sep(bas) \o w(2) \o Sep(bas) \o w(3) [] t.p = 3 /\ tr = 6 -> <<45>> \o w(2) \o Sep(bas) \o w(3)
                [] t.p = 3 /\ tr = 7 -> <<45, 45>> \o w(3) [] OTHER -> NoText IN
  IF stem = NoText THEN NoText
  ELSE stem \o (IF ndp = 0 THEN <<>> ELSE <<dp>> \o Dec(((a[t.p] % 8) * Pow(ndp)) \div 8, ndp)) \o (IF tr = 0 THEN ZoneText(t.z, bas, short) ELSE <<>>)

(* -------------------------------------------------------------- points   *)
(* a point is [d, t]: the number of the day and the time                   *)
CarryP(d, r) == [d |-> d + r[2], t |-> r[1]]
ShiftP(x, z) == LET r == Shift(x.t, z) IN IF r[1] = Bad \/ ~InRange(x.d + r[2]) THEN [d |-> 0, t |-> Bad] ELSE CarryP(x.d, r)
CmpP(a, b) ==     \* 9: not comparable
  IF a.t.p # b.t.p \/ ((a.t.z = NoZone) # (b.t.z = NoZone)) THEN 9
  ELSE LET n == IF a.t.z = NoZone THEN 0 ELSE (Off(a.t.z) - Off(b.t.z)) * M IN
    IF a.t.p = 1 /\ n % H # 0 THEN 9
    ELSE LET dd == a.d - b.d IN IF dd > 2 THEN 1 ELSE IF dd < -2 THEN -1
      ELSE LET x == dd * DayU + a.t.u - b.t.u - n IN IF x = 0 THEN 0 ELSE IF x < 0 THEN -1 ELSE 1

(* ----------------------------------------------------------- durations   *)
(* <<years, months, days, hours, minutes, seconds>> in eighths, -8 absent; or <<weeks>> *)
DLetters == <<89, 77, 68, 72, 77, 83>>
BadD == <<>>
RECURSIVE Comps(_)
Comps(s) ==   \* the components <<digits with fraction, letter>>; <<>> at the end; a letter 0 marks an error
  IF s = <<>> THEN <<>>
  ELSE LET k == First(s, {87, 89, 77, 68, 72, 83, 84}) IN
    IF k = 0 THEN <<<<s, 0>>>> ELSE <<<<Cut(s, 1, k - 1), s[k]>>>> \o Comps(Cut(s, k + 1, Len(s)))
ReadD(s) ==    \* [ok, exact, v]
  IF Len(s) < 2 \/ s[1] # 80 THEN NoParse
  ELSE LET cs == Comps(Tail(s))  n == Len(cs)
           good(k) == LET f == Frac(cs[k][1]) IN f[1] /\ f[2] # <<>> /\ DigitsOnly(f[2]) /\ (f[3] = 0 \/ k = n)
           v(k) == LET f == Frac(cs[k][1]) IN Val(f[2]) * 8 + (IF f[3] = 0 THEN 0 ELSE Eighths(f[4]))
           ex == LET f == Frac(cs[n][1]) IN f[3] = 0 \/ EighthsExact(f[4])
           ts == {k \in 1..n : cs[k][2] = 84}
           tk == IF ts = {} THEN n + 1 ELSE CHOOSE k \in ts : TRUE
           slot(k) == IF k < tk THEN (CASE cs[k][2] = 89 -> 1 [] cs[k][2] = 77 -> 2 [] cs[k][2] = 68 -> 3 [] OTHER -> 0)
                      ELSE (CASE cs[k][2] = 72 -> 4 [] cs[k][2] = 77 -> 5 [] cs[k][2] = 83 -> 6 [] OTHER -> 0)
           ks == (1..n) \ {tk} IN
    IF n = 1 /\ cs[1][2] = 87 THEN (IF good(1) THEN [ok |-> TRUE, exact |-> ex, v |-> <<v(1)>>] ELSE NoParse)
    ELSE IF \/ Cardinality(ts) > 1 \/ tk = n \/ ks = {} \/ (tk <= n /\ cs[tk][1] # <<>>) \/ \E k \in ks : ~good(k) \/ slot(k) = 0
            \/ \E j, k \in ks : j < k /\ slot(j) >= slot(k) THEN NoParse
    ELSE LET last == slot(n) IN
      [ok |-> TRUE, exact |-> ex, v |-> [q \in 1..6 |-> IF \E k \in ks : slot(k) = q THEN v(CHOOSE k \in ks : slot(k) = q) ELSE IF q < last THEN 0 ELSE -8]]
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
NumText(v, ndp, dp) == Dig(v \div 8) \o (IF v % 8 = 0 \/ ndp = 0 THEN <<>> ELSE <<dp>> \o Dec(((v % 8) * Pow(ndp)) \div 8, ndp))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
DurText(v, zeros, ndp, dp) ==
  IF Len(v) = 1 THEN <<80>> \o NumText(v[1], ndp, dp) \o <<87>>
  ELSE LET n == CHOOSE k \in 1..6 : v[k] >= 0 /\ \A j \in k + 1..6 : v[j] < 0
           lead(k) == zeros /\ k < n /\ \A j \in 1..k : v[j] = 0
           c(k) == IF k > n \/ lead(k) THEN <<>> ELSE NumText(v[k], ndp, dp) \o <<DLetters[k]>>
           t == Cat([k \in 1..3 |-> c(k + 3)]) IN
    <<80>> \o Cat([k \in 1..3 |-> c(k)]) \o (IF t = <<>> THEN <<>> ELSE <<84>> \o t)
=============================================================================
