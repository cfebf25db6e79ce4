----------------------------- MODULE MCCalendar -----------------------------
(* The closed forms of Calendar agree with the calendar walked day by day. *)
EXTENDS Calendar
CONSTANT Years        \* walked one by one, each into the first days of the next
VARIABLES s, n, y, m, d, wy, w, wd, jy, jm, jd
vars == <<s, n, y, m, d, wy, w, wd, jy, jm, jd>>
Init ==
  /\ s \in Years /\ y = s /\ m = 1 /\ d = 1 /\ n = YearEnd(s - 1) + 1
  /\ wd = Weekday(n) /\ w = Week(n) /\ wy = WeekYear(n)
  /\ LET j == CHOOSE j \in (s - 1)..s : JEnd(j - 1) < n /\ n <= JEnd(j)
         k == CHOOSE k \in 1..12 : \E e \in 1..31 : e <= (IF k = 2 THEN (IF JLeap(j) THEN 29 ELSE 28) ELSE MonthLen(1, k)) /\ JAbs(j, k, e) = n IN
     jy = j /\ jm = k /\ jd = n - JAbs(j, k, 1) + 1
JLen(k) == IF k = 2 THEN (IF JLeap(jy) THEN 29 ELSE 28) ELSE MonthLen(1, k)
Next ==
  /\ (y = s \/ (m = 1 /\ d < 9)) /\ s' = s
  /\ n' = n + 1
  /\ IF d < MonthLen(y, m) THEN y' = y /\ m' = m /\ d' = d + 1 ELSE d' = 1 /\ (IF m = 12 THEN y' = y + 1 /\ m' = 1 ELSE y' = y /\ m' = m + 1)
  /\ IF jd < JLen(jm) THEN jy' = jy /\ jm' = jm /\ jd' = jd + 1 ELSE jd' = 1 /\ (IF jm = 12 THEN jy' = jy + 1 /\ jm' = 1 ELSE jy' = jy /\ jm' = jm + 1)
  /\ wd' = (IF wd = 7 THEN 1 ELSE wd + 1)
  \* a new week is the first of the next year if its Thursday, three days on, falls into it
  /\ IF wd < 7 THEN w' = w /\ wy' = wy
     ELSE LET first == (m' = 12 /\ d' >= 29) \/ (m' = 1 /\ d' <= 4) IN
       IF first THEN w' = 1 /\ wy' = wy + 1 ELSE w' = w + 1 /\ wy' = wy
Inv == /\ Valid(y, m, d) /\ Abs(y, m, d) = n /\ OfAbs(n) = <<y, m, d>> /\ OfOrd(y, Ord(y, m, d)) = <<y, m, d>>
       /\ Weekday(n) = wd /\ Week(n) = w /\ WeekYear(n) = wy /\ OfWeek(wy, w, wd) = n /\ w <= Weeks(wy)
       /\ JAbs(jy, jm, jd) = n
       /\ LET x == D5(y, m, d) IN \A f \in {"YYYYMMDD", "YYYY-MM-DD"} : Read(Write(f, y, m, 0, d), f, Fail) = x
       /\ Read(WeekText(D5(y, m, d), FALSE, 0), "YYYY-Www-D", Fail) = D5(y, m, d)
       /\ Read(OrdText(D5(y, m, d), TRUE, 0), "YYYYDDD", Fail) = D5(y, m, d)
=============================================================================
