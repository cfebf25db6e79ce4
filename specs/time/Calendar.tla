------------------------------ MODULE Calendar ------------------------------
(* Dates: the Gregorian calendar counted from 0001-01-01 (day 1, a Monday),*)
(* its ordinal and week forms, the Julian calendar, and the written forms   *)
(* of ISO 8601 with their truncations and reduced precisions.               *)
(* A date is a record [c, y, m, w, d]: century, year of the century, month,*)
(* week, day; -1 where the precision leaves it out.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Before(m) == CASE m = 1 -> 0 [] m = 2 -> 31 [] m = 3 -> 59 [] m = 4 -> 90 [] m = 5 -> 120 [] m = 6 -> 151 [] m = 7 -> 181
               [] m = 8 -> 212 [] m = 9 -> 243 [] m = 10 -> 273 [] m = 11 -> 304 [] m = 12 -> 334
Valid(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
Ord(y, m, d) == Before(m) + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
YearEnd(y) == 365 * y + y \div 4 - y \div 100 + y \div 400      \* the number of the last day of year y
Abs(y, m, d) == YearEnd(y - 1) + Ord(y, m, d)
MaxDay == YearEnd(9999)
YearOf(n) == LET g == n \div 366 IN CHOOSE y \in (g - 1)..(g + 30) : YearEnd(y - 1) < n /\ n <= YearEnd(y)
MonthOf(y, o) == CHOOSE m \in 1..12 : Ord(y, m, 1) <= o /\ o < Ord(y, m, 1) + MonthLen(y, m)
OfOrd(y, o) == LET m == MonthOf(y, o) IN <<y, m, o - Ord(y, m, 1) + 1>>
OfAbs(n) == LET y == YearOf(n) IN OfOrd(y, n - YearEnd(y - 1))
Weekday(n) == ((n - 1) % 7) + 1
(* weeks: a week belongs to the year of its Thursday                       *)
WeekYear(n) == YearOf(n - Weekday(n) + 4)
Week(n) == LET t == n - Weekday(n) + 4 IN (t - YearEnd(YearOf(t) - 1) - 1) \div 7 + 1
WeekOne(y) == LET f == YearEnd(y - 1) + 4 IN f - Weekday(f) + 1      \* the Monday of week 1
Weeks(y) == (WeekOne(y + 1) - WeekOne(y)) \div 7
OfWeek(y, w, d) == WeekOne(y) + 7 * (w - 1) + d - 1
(* the Julian calendar: 0001-01-03 is the day 1 of the Gregorian calendar  *)
JLeap(y) == y % 4 = 0
JEnd(y) == 365 * y + y \div 4 - 2
JOrd(y, m, d) == Before(m) + d + (IF m > 2 /\ JLeap(y) THEN 1 ELSE 0)
JAbs(y, m, d) == JEnd(y - 1) + JOrd(y, m, d)

(* --------------------------------------------------------- date records  *)
None == -1
D5(y, m, d) == [c |-> y \div 100, y |-> y % 100, m |-> m, w |-> None, d |-> d]
DayNo(x) == Abs(x.c * 100 + x.y, x.m, x.d)
OfNo(n) == LET t == OfAbs(n) IN D5(t[1], t[2], t[3])
InRange(n) == n \in 1..MaxDay
Fail == [c |-> -2, y |-> -2, m |-> -2, w |-> -2, d |-> -2]
MkCal(y, m, d) == IF Valid(y, m, d) THEN D5(y, m, d) ELSE Fail
MkOrd(y, o) == IF y \in 1..9999 /\ o >= 1 /\ o <= YearLen(y) THEN OfNo(YearEnd(y - 1) + o) ELSE Fail
MkWeekDay(y, w, d) == IF y \in 1..9999 /\ w >= 1 /\ w <= Weeks(y) /\ d \in 1..7 /\ InRange(OfWeek(y, w, d)) THEN OfNo(OfWeek(y, w, d)) ELSE Fail
MkWeek(y, w) == IF y \in 1..9999 /\ w >= 1 /\ w <= Weeks(y) THEN [c |-> y \div 100, y |-> y % 100, m |-> None, w |-> w, d |-> None] ELSE Fail
MkMonth(y, m) == IF y \in 1..9999 /\ m \in 1..12 THEN [D5(y, m, None) EXCEPT !.d = None] ELSE Fail
MkYear(y) == IF y \in 1..9999 THEN [D5(y, None, None) EXCEPT !.d = None] ELSE Fail
MkCentury(c) == [c |-> c, y |-> None, m |-> None, w |-> None, d |-> None]

(* truncated forms: the missing leading parts are those of the base, the   *)
(* lowest of them one higher if the date would otherwise lie before it     *)
Y4(b) == b.c * 100 + b.y
WithYY(b, yy, less) == (IF less THEN b.c + 1 ELSE b.c) * 100 + yy
Lex(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..k - 1 : a[j] = b[j]
NextMonth(y, m) == IF m = 12 THEN <<y + 1, 1>> ELSE <<y, m + 1>>

(* ------------------------------------------------------------ the forms  *)
(* a form is its name as a sequence of characters, e.g. "YYYY-Www-D"       *)
Digits == 48..57
Forms == {"YYYYMMDD", "YYYY-MM", "YYYY", "YY", "YYMMDD", "-YYMM", "-YY", "--MMDD", "--MM", "---DD", "YYYYDDD", "YYDDD", "-DDD", "YYYYWwwD", "YYYYWww", "YYWwwD", "YYWww",
  "-YWwwD", "-YWww", "-WwwD", "-Www", "-W-D", "YYYY-MM-DD", "YY-MM-DD", "-YY-MM", "--MM-DD", "YYYY-DDD", "YY-DDD", "YYYY-Www-D", "YYYY-Www", "YY-Www-D", "YY-Www",
  "-Y-Www-D", "-Y-Www", "-Www-D"}
Basic == {"YYYYMMDD", "YYYY-MM", "YYYY", "YY", "YYMMDD", "-YYMM", "-YY", "--MMDD", "--MM", "---DD", "YYYYDDD", "YYDDD", "-DDD", "YYYYWwwD", "YYYYWww", "YYWwwD", "YYWww",
  "-YWwwD", "-YWww", "-WwwD", "-Www", "-W-D"}
Extended == {"YYYY-MM-DD", "YYYY-MM", "YYYY", "YY", "YY-MM-DD", "-YY-MM", "-YY", "--MM-DD", "--MM", "---DD", "YYYY-DDD", "YY-DDD", "-DDD", "YYYY-Www-D", "YYYY-Www", "YY-Www-D", "YY-Www",
  "-Y-Www-D", "-Y-Www", "-Www-D", "-Www", "-W-D"}
(* the names as character codes *)
CodesOf == [f \in Forms |-> CASE
     f = "YYYYMMDD" -> <<89,89,89,89,77,77,68,68>> [] f = "YYYY-MM" -> <<89,89,89,89,45,77,77>> [] f = "YYYY" -> <<89,89,89,89>> [] f = "YY" -> <<89,89>>
  [] f = "YYMMDD" -> <<89,89,77,77,68,68>> [] f = "-YYMM" -> <<45,89,89,77,77>> [] f = "-YY" -> <<45,89,89>> [] f = "--MMDD" -> <<45,45,77,77,68,68>> [] f = "--MM" -> <<45,45,77,77>>
  [] f = "---DD" -> <<45,45,45,68,68>> [] f = "YYYYDDD" -> <<89,89,89,89,68,68,68>> [] f = "YYDDD" -> <<89,89,68,68,68>> [] f = "-DDD" -> <<45,68,68,68>>
  [] f = "YYYYWwwD" -> <<89,89,89,89,87,119,119,68>> [] f = "YYYYWww" -> <<89,89,89,89,87,119,119>> [] f = "YYWwwD" -> <<89,89,87,119,119,68>> [] f = "YYWww" -> <<89,89,87,119,119>>
  [] f = "-YWwwD" -> <<45,89,87,119,119,68>> [] f = "-YWww" -> <<45,89,87,119,119>> [] f = "-WwwD" -> <<45,87,119,119,68>> [] f = "-Www" -> <<45,87,119,119>> [] f = "-W-D" -> <<45,87,45,68>>
  [] f = "YYYY-MM-DD" -> <<89,89,89,89,45,77,77,45,68,68>> [] f = "YY-MM-DD" -> <<89,89,45,77,77,45,68,68>> [] f = "-YY-MM" -> <<45,89,89,45,77,77>> [] f = "--MM-DD" -> <<45,45,77,77,45,68,68>>
  [] f = "YYYY-DDD" -> <<89,89,89,89,45,68,68,68>> [] f = "YY-DDD" -> <<89,89,45,68,68,68>> [] f = "YYYY-Www-D" -> <<89,89,89,89,45,87,119,119,45,68>> [] f = "YYYY-Www" -> <<89,89,89,89,45,87,119,119>>
  [] f = "YY-Www-D" -> <<89,89,45,87,119,119,45,68>> [] f = "YY-Www" -> <<89,89,45,87,119,119>> [] f = "-Y-Www-D" -> <<45,89,45,87,119,119,45,68>> [] f = "-Y-Www" -> <<45,89,45,87,119,119>>
  [] f = "-Www-D" -> <<45,87,119,119,45,68>>]
Letters == {89, 77, 68, 119}      \* Y M D w
Fits(s, f) == LET p == CodesOf[f] IN Len(s) = Len(p) /\ \A k \in 1..Len(p) : IF p[k] \in Letters THEN s[k] \in Digits ELSE s[k] = p[k]
FormOf(s) == IF \E f \in Forms : Fits(s, f) THEN CHOOSE f \in Forms : Fits(s, f) ELSE ""
Count(f, x) == Cardinality({k \in 1..Len(CodesOf[f]) : CodesOf[f][k] = x})
Has(f, x) == Count(f, x) > 0
RECURSIVE Num(_, _)
Num(s, n) == IF n = 0 THEN 0 ELSE Num(s, n - 1) * 10 + s[n] - 48
Field(s, f, x) == LET p == CodesOf[f]  t == SelectSeq([k \in 1..Len(p) |-> IF p[k] = x THEN s[k] ELSE 0], LAMBDA c : c # 0) IN Num(t, Len(t))

(* the date a well-formed text stands for, relative to the base b (a date record, or Fail without one) *)
Read(s, f, b) ==
  LET yn == Count(f, 89)  yv == Field(s, f, 89)  mv == Field(s, f, 77)  wv == Field(s, f, 119)  dv == Field(s, f, 68)
      week == 87 \in {CodesOf[f][k] : k \in 1..Len(CodesOf[f])}
      dn == Count(f, 68)
      nob == b = Fail
      bd == IF nob THEN <<0, 0, 0>> ELSE <<Y4(b), b.m, b.d>>
      bn == IF nob THEN 0 ELSE DayNo(b)
      bo == IF nob THEN 0 ELSE Ord(bd[1], bd[2], bd[3])
      wy == IF nob THEN 0 ELSE WeekYear(bn)   ww == IF nob THEN 0 ELSE Week(bn)   wd == IF nob THEN 0 ELSE Weekday(bn) IN
  IF f = "YY" THEN MkCentury(yv)
  ELSE IF yn < 4 /\ nob THEN Fail
  ELSE IF week THEN
    LET rest == (IF Has(f, 119) THEN <<wv>> ELSE <<>>) \o (IF dn = 1 THEN <<dv>> ELSE <<>>)
        brest == (IF Has(f, 119) THEN <<ww>> ELSE <<>>) \o (IF dn = 1 THEN <<wd>> ELSE <<>>)
        yy == IF yn = 4 THEN yv
              ELSE IF yn = 2 THEN (wy \div 100 + (IF Lex(<<yv>> \o rest, <<wy % 100>> \o brest) THEN 1 ELSE 0)) * 100 + yv
              ELSE IF yn = 1 THEN (wy \div 10 + (IF Lex(<<yv>> \o rest, <<wy % 10>> \o brest) THEN 1 ELSE 0)) * 10 + yv
              ELSE IF Has(f, 119) THEN wy + (IF Lex(rest, brest) THEN 1 ELSE 0)
              ELSE wy
        ok == dn = 0 \/ dv \in 1..7 IN
    IF Has(f, 119) THEN (IF ~ok THEN Fail ELSE IF dn = 1 THEN MkWeekDay(yy, wv, dv) ELSE MkWeek(yy, wv))
    ELSE IF ~ok THEN Fail        \* the next such day of the week
    ELSE LET n == bn - wd + dv + (IF dv < wd THEN 7 ELSE 0) IN IF InRange(n) THEN OfNo(n) ELSE Fail
  ELSE IF dn = 3 THEN
    LET yy == IF yn = 4 THEN yv ELSE IF yn = 2 THEN WithYY(b, yv, Lex(<<yv, dv>>, <<b.y, bo>>)) ELSE bd[1] + (IF dv < bo THEN 1 ELSE 0) IN MkOrd(yy, dv)
  ELSE IF yn >= 2 THEN
    LET rest == (IF Has(f, 77) THEN <<mv>> ELSE <<>>) \o (IF dn = 2 THEN <<dv>> ELSE <<>>)
        brest == (IF Has(f, 77) THEN <<b.m>> ELSE <<>>) \o (IF dn = 2 THEN <<b.d>> ELSE <<>>)
        yy == IF yn = 4 THEN yv ELSE WithYY(b, yv, Lex(<<yv>> \o rest, <<b.y>> \o brest)) IN
    IF dn = 2 THEN MkCal(yy, mv, dv) ELSE IF Has(f, 77) THEN MkMonth(yy, mv) ELSE MkYear(yy)
  ELSE IF Has(f, 77) THEN
    LET yy == bd[1] + (IF (IF dn = 2 THEN Lex(<<mv, dv>>, <<b.m, b.d>>) ELSE mv < b.m) THEN 1 ELSE 0) IN
    IF dn = 2 THEN MkCal(yy, mv, dv) ELSE MkMonth(yy, mv)
  ELSE LET t == IF dv < b.d THEN NextMonth(bd[1], b.m) ELSE <<bd[1], b.m>> IN MkCal(t[1], t[2], dv)
(* ---------------------------------------------------------- writing      *)
RECURSIVE Dec(_, _)
Dec(n, k) == IF k = 0 THEN <<>> ELSE Dec(n \div 10, k - 1) \o <<48 + (n % 10)>>
RECURSIVE Fill(_, _, _)
Fill(p, x, ds) ==    \* the letters x of the name p are filled with the digits ds
  IF p = <<>> THEN <<>> ELSE IF Head(p) = x THEN <<Head(ds)>> \o Fill(Tail(p), x, Tail(ds)) ELSE <<Head(p)>> \o Fill(Tail(p), x, ds)
(* the text of form f for the parts [year, m, w, d] *)
Write(f, yv, mv, wv, dv) ==
  LET yn == Count(f, 89)
      p1 == Fill(CodesOf[f], 89, Dec(IF f = "YY" THEN yv \div 100 ELSE yv, yn))
      p2 == Fill(p1, 77, Dec(mv, Count(f, 77)))
      p3 == Fill(p2, 119, Dec(wv, Count(f, 119))) IN
  Fill(p3, 68, Dec(dv, Count(f, 68)))
(* the form used for a kind, basic or extended, with a truncation (0 none, 1 century, 2 decade, 3 year, 4 month, 5 week) and a precision *)
CalForm(x, bas, tr) ==
  IF x.d # None THEN CASE tr = 0 -> (IF bas THEN "YYYYMMDD" ELSE "YYYY-MM-DD") [] tr = 1 -> (IF bas THEN "YYMMDD" ELSE "YY-MM-DD") [] tr = 3 -> (IF bas THEN "--MMDD" ELSE "--MM-DD")
                       [] tr = 4 -> "---DD" [] OTHER -> ""
  ELSE IF x.m # None THEN CASE tr = 0 -> "YYYY-MM" [] tr = 1 -> (IF bas THEN "-YYMM" ELSE "-YY-MM") [] tr = 3 -> "--MM" [] OTHER -> ""
  ELSE IF x.w # None THEN ""
  ELSE IF x.y # None THEN CASE tr = 0 -> "YYYY" [] tr = 1 -> "-YY" [] OTHER -> ""
  ELSE IF tr = 0 THEN "YY" ELSE ""
OrdForm(x, bas, tr) ==
  IF x.d # None THEN CASE tr = 0 -> (IF bas THEN "YYYYDDD" ELSE "YYYY-DDD") [] tr = 1 -> (IF bas THEN "YYDDD" ELSE "YY-DDD") [] tr = 3 -> "-DDD" [] OTHER -> ""
  ELSE IF x.m # None \/ x.w # None THEN "" ELSE CalForm(x, bas, tr)
WeekForm(x, bas, tr) ==
  IF x.d # None THEN CASE tr = 0 -> (IF bas THEN "YYYYWwwD" ELSE "YYYY-Www-D") [] tr = 1 -> (IF bas THEN "YYWwwD" ELSE "YY-Www-D") [] tr = 2 -> (IF bas THEN "-YWwwD" ELSE "-Y-Www-D")
                       [] tr = 3 -> (IF bas THEN "-WwwD" ELSE "-Www-D") [] tr = 5 -> "-W-D" [] OTHER -> ""
  ELSE IF x.w # None THEN CASE tr = 0 -> (IF bas THEN "YYYYWww" ELSE "YYYY-Www") [] tr = 1 -> (IF bas THEN "YYWww" ELSE "YY-Www") [] tr = 2 -> (IF bas THEN "-YWww" ELSE "-Y-Www")
                       [] tr = 3 -> "-Www" [] OTHER -> ""
  ELSE IF x.m # None THEN "" ELSE CalForm(x, bas, tr)
YV(x) == IF x.y = None THEN x.c * 100 ELSE x.c * 100 + x.y
CalText(x, bas, tr) == LET f == CalForm(x, bas, tr) IN IF f = "" THEN <<>> ELSE Write(f, YV(x), x.m, 0, x.d)
OrdText(x, bas, tr) == LET f == OrdForm(x, bas, tr) IN IF f = "" THEN <<>> ELSE Write(f, YV(x), 0, 0, IF x.d = None THEN 0 ELSE Ord(YV(x), x.m, x.d))
WeekText(x, bas, tr) == LET f == WeekForm(x, bas, tr) IN IF f = "" THEN <<>>
  ELSE IF x.d # None THEN Write(f, WeekYear(DayNo(x)), 0, Week(DayNo(x)), Weekday(DayNo(x))) ELSE Write(f, YV(x), x.m, x.w, 0)
(* ------------------------------------------------------------ arithmetic *)
Offset(x, cc, yy, mm, ww, dd) ==        \* days and weeks first, then the rest
  LET n == IF x.d = None THEN 0 ELSE DayNo(x) + dd + 7 * ww
      z == IF dd = 0 /\ ww = 0 THEN x ELSE OfNo(n)
      t == Y4(z) * 12 + z.m - 1 + mm + 12 * yy + 1200 * cc IN
  IF (dd # 0 \/ ww # 0) /\ ~InRange(n) THEN Fail
  ELSE IF cc = 0 /\ yy = 0 /\ mm = 0 THEN z
  ELSE MkCal(t \div 12, (t % 12) + 1, z.d)
Prec(x) == IF x.d # None THEN 5 ELSE IF x.m # None THEN 3 ELSE IF x.w # None THEN 4 ELSE IF x.y # None THEN 2 ELSE 1
Cmp(a, b) ==      \* of dates of the same precision
  LET s == <<a.c, a.y, a.m, a.w, a.d>>  t == <<b.c, b.y, b.m, b.w, b.d>> IN IF s = t THEN 0 ELSE IF Lex(s, t) THEN -1 ELSE 1
=============================================================================
