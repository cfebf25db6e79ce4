------------------------------ MODULE MCClock -------------------------------
(* The clock of Clock against a clock that ticks, and its texts read back.  *)
EXTENDS Clock
CONSTANT Step      \* eighths of a second per tick
VARIABLES t, h, m, s, day
vars == <<t, h, m, s, day>>
Zs == {NoZone, <<0, 0>>, <<1, 0>>, <<1, 60>>, <<-1, 330>>, <<1, 1439>>}
Init == t \in {[p |-> 3, u |-> 0, z |-> z] : z \in Zs} /\ h = 0 /\ m = 0 /\ s = 0 /\ day = 0
Next == /\ day = 0
        /\ t' = OffsetT(t, 0, 0, Step)[1] /\ day' = day + OffsetT(t, 0, 0, Step)[2]
        /\ LET x == s + Step IN s' = x % 480 /\ LET y == m + x \div 480 IN m' = y % 60 /\ LET w == h + y \div 60 IN h' = w % 24
Inv == /\ Part(t) = <<h * 8, m * 8, s>> /\ Mk(h * 8, m * 8, s, t.z) = t /\ (day = 1 => t.u < Step)
       /\ \A bas \in BOOLEAN, short \in BOOLEAN, dp \in {44, 46} :
            LET x == TimeText(t, bas, 0, 3, short, dp)  q == Parse(x) IN q.ok /\ q.exact /\ ReadT(q, Bad) = <<t, 0>> /\ ReadT(q, [p |-> 3, u |-> 77, z |-> NoZone]) = <<t, 0>>
       /\ \A tr \in {6, 7}, b \in {[p |-> 3, u |-> 84 * M + 7, z |-> <<0, 0>>], [p |-> 3, u |-> DayU - 3, z |-> NoZone]} :
            LET x == TimeText(t, TRUE, tr, 3, FALSE, 46)  q == Parse(x)  r == ReadT(q, b)  n == IF tr = 6 THEN H ELSE M IN
              q.ok /\ r[1].u % n = t.u % n /\ r[1].z = b.z /\ r[1].u + DayU * r[2] \in b.u..(b.u + n - 1)
       /\ (t.z # NoZone => \A z \in Zs \ {NoZone} : LET r == Shift(t, z) IN
             /\ r[1].u + DayU * r[2] - Off(z) * M = t.u - Off(t.z) * M /\ r[1].z = z
             /\ \A d \in {700, 701} : CmpP([d |-> 700, t |-> t], [d |-> d + r[2], t |-> r[1]]) = (IF d = 700 THEN 0 ELSE -1))
       /\ \A p \in 1..3 : LET c == ToPrec(t, p, TRUE) IN c.u <= t.u /\ t.u - c.u < Unit(p) /\ c.u % Unit(p) = 0
=============================================================================
