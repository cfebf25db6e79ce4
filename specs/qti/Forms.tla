------------------------------- MODULE Forms --------------------------------
(* Test forms: which sequences of components the selection and ordering    *)
(* rules of a test allow.  A section or item is a record [id, sec, req,    *)
(* fix, vis, keep, sel, rep, shuf, kids] (sel is -1 without a selection).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

N(s) == Len(s.kids)
Target(s) == IF s.sel < 0 THEN N(s) ELSE s.sel
Rep(s) == s.sel >= 0 /\ s.rep
NReq(s) == Cardinality({i \in 1..N(s) : s.kids[i].req})
Mixed(k) == k.sec /\ ~k.vis /\ ~k.keep /\ ~k.fix     \* its children mingle with those of a shuffled parent
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
CountOK(s, c) ==      \* c: how often each child is selected
  /\ Sum(c, N(s)) = Target(s)
  /\ \A i \in 1..N(s) : (s.kids[i].req => c[i] >= 1) /\ (~Rep(s) => c[i] <= 1)

(* ------------------------------------------------- the errors that can be *)
Sure(s) == NReq(s) > Target(s) \/ (~Rep(s) /\ Target(s) > N(s)) \/ (N(s) = 0 /\ Target(s) > 0)
May(s, i) == s.kids[i].req \/ Target(s) > NReq(s)           \* child i may be selected
RECURSIVE FixedIn(_)
FixedIn(m) == \E i \in 1..N(m) : May(m, i) /\ (m.kids[i].fix \/ (m.shuf /\ Mixed(m.kids[i]) /\ FixedIn(m.kids[i])))
RECURSIVE CanErr(_)
CanErr(s) == Sure(s) \/ \E i \in 1..N(s) : LET k == s.kids[i] IN
  May(s, i) /\ k.sec /\ (CanErr(k) \/ (s.shuf /\ Mixed(k) /\ FixedIn(k)))

(* ---------------------------------------------------- judging a sequence  *)
BAD == <<[id |-> "?", in |-> <<>>]>>
RECURSIVE Units(_, _)
Units(q, secs) ==        \* the units of a sequence: items, and sections with what is in them
  IF q = <<>> THEN <<>>
  ELSE IF Head(q) \notin secs THEN <<[id |-> Head(q), in |-> <<>>]>> \o Units(Tail(q), secs)
  ELSE LET es == {j \in 2..Len(q) : q[j] = "-" \o Head(q)} IN
    IF es = {} THEN BAD
    ELSE LET e == CHOOSE j \in es : \A k \in es : j <= k IN
      <<[id |-> Head(q), in |-> SubSeq(q, 2, e - 1)]>> \o Units(SubSeq(q, e + 1, Len(q)), secs)

Kid(s, x) == {i \in 1..N(s) : s.kids[i].id = x}
Count(us, x) == Cardinality({j \in 1..Len(us) : us[j].id = x})
RECURSIVE Pool(_)
Pool(m) == UNION {IF m.shuf /\ Mixed(m.kids[i]) THEN Pool(m.kids[i]) ELSE {m.kids[i].id} : i \in 1..N(m)}
IsOwn(s, i, x) == IF s.shuf /\ Mixed(s.kids[i]) THEN x \in Pool(s.kids[i]) ELSE s.kids[i].id = x
MixIdx(s) == {i \in 1..N(s) : s.shuf /\ Mixed(s.kids[i])}

RECURSIVE Sorted(_, _)
Sorted(c, n) == IF n = 0 THEN <<>> ELSE Sorted(c, n - 1) \o [j \in 1..c[n] |-> n]
RECURSIVE Segs(_, _)
Segs(w, n) ==       \* w: which entries are fixed; the numbers of free entries before, between and after them
  IF w = <<>> THEN <<n>> ELSE IF Head(w) THEN <<n>> \o Segs(Tail(w), 0) ELSE Segs(Tail(w), n + 1)

RECURSIVE Feasible(_, _, _, _)
RECURSIVE Ok(_, _, _)
Inner(s, us, secs) == \A j \in 1..Len(us), i \in 1..N(s) : (us[j].id = s.kids[i].id /\ s.kids[i].sec) => Ok(s.kids[i], us[j].in, secs)
(* m selections of the mixed section s together give the units us           *)
Feasible(s, m, us, secs) ==
  IF m = 0 THEN us = <<>>
  ELSE \E mm \in [MixIdx(s) -> 0..(m * Target(s))] :
    LET c == [i \in 1..N(s) |-> IF i \in MixIdx(s) THEN mm[i] ELSE Count(us, s.kids[i].id)] IN
    /\ Sum(c, N(s)) = m * Target(s)
    /\ \A i \in 1..N(s) : (s.kids[i].req => c[i] >= m) /\ (~Rep(s) => c[i] <= m) /\ (s.kids[i].fix => c[i] = 0)
    /\ \A j \in 1..Len(us) : \E i \in 1..N(s) : IsOwn(s, i, us[j].id)
    /\ \A i \in MixIdx(s) : Feasible(s.kids[i], mm[i], SelectSeq(us, LAMBDA u : IsOwn(s, i, u.id)), secs)
    /\ Inner(s, SelectSeq(us, LAMBDA u : \A i \in MixIdx(s) : ~IsOwn(s, i, u.id)), secs)

Ok(s, q, secs) ==
  LET us == Units(q, secs) IN
  /\ \A j \in 1..Len(us) : \E i \in 1..N(s) : IsOwn(s, i, us[j].id)
  /\ Inner(s, SelectSeq(us, LAMBDA u : Kid(s, u.id) # {}), secs)
  /\ IF ~s.shuf THEN
       /\ CountOK(s, [i \in 1..N(s) |-> Count(us, s.kids[i].id)])
       /\ \A j \in 1..Len(us) - 1 : \E a, b \in 1..N(s) : a <= b /\ s.kids[a].id = us[j].id /\ s.kids[b].id = us[j + 1].id
     ELSE \E mm \in [MixIdx(s) -> 0..(IF Rep(s) THEN Target(s) ELSE 1)] :
       LET c == [i \in 1..N(s) |-> IF i \in MixIdx(s) THEN mm[i] ELSE Count(us, s.kids[i].id)]
           w == Sorted(c, N(s))       \* the selected children in order
           fixw == SelectSeq(w, LAMBDA i : s.kids[i].fix)
           isfix(u) == \E i \in 1..N(s) : s.kids[i].id = u.id /\ s.kids[i].fix
           fixu == SelectSeq(us, isfix)
           a == Segs([j \in 1..Len(w) |-> s.kids[w[j]].fix], 0)
           b == Segs([j \in 1..Len(us) |-> isfix(us[j])], 0) IN
       /\ CountOK(s, c)
       /\ \A i \in MixIdx(s) : Feasible(s.kids[i], mm[i], SelectSeq(us, LAMBDA u : IsOwn(s, i, u.id)), secs)
       /\ [j \in 1..Len(fixw) |-> s.kids[fixw[j]].id] = [j \in 1..Len(fixu) |-> fixu[j].id]
       \* every free place takes at least one unit (at most one if there are not enough)
       /\ IF Sum(b, Len(b)) >= Sum(a, Len(a)) THEN \A j \in 1..Len(a) : b[j] >= a[j] /\ (a[j] = 0 => b[j] = 0)
          ELSE \A j \in 1..Len(a) : b[j] <= a[j]

(* the whole form *)
RECURSIVE Secs(_)
Secs(s) == {s.id} \cup UNION {IF s.kids[i].sec THEN Secs(s.kids[i]) ELSE {} : i \in 1..N(s)}
AllSecs(t) == UNION {{t[p].id} \cup UNION {Secs(t[p].kids[i]) : i \in 1..Len(t[p].kids)} : p \in 1..Len(t)}
FormOK(t, q) ==
  LET secs == AllSecs(t) IN
  /\ q # <<>> /\ Head(q) = ""
  /\ LET us == Units(Tail(q), secs) IN
     /\ Len(us) = Len(t)
     /\ \A p \in 1..Len(t) : us[p].id = t[p].id /\ LET vs == Units(us[p].in, secs)  ks == t[p].kids IN
          Len(vs) = Len(ks) /\ \A i \in 1..Len(ks) : vs[i].id = ks[i].id /\ Ok(ks[i], vs[i].in, secs)
FormErr(t) == \E p \in 1..Len(t) : \E i \in 1..Len(t[p].kids) : CanErr(t[p].kids[i])

(* ------------------------------------- all forms of small unmixed sections *)
Join(S0, S1) == {x \o y : x \in S0, y \in S1}
RECURSIVE All(_)
RECURSIVE Expand(_, _)
Expand(s, w) == IF w = <<>> THEN {<<>>} ELSE
  LET k == s.kids[Head(w)] IN Join(IF k.sec THEN {<<k.id>> \o x \o <<"-" \o k.id>> : x \in All(k)} ELSE {<<k.id>>}, Expand(s, Tail(w)))
Occ(w, i) == Cardinality({p \in 1..Len(w) : w[p] = i})
Arrange(s, w) == IF ~s.shuf THEN {w} ELSE
  {x \in [1..Len(w) -> {w[p] : p \in 1..Len(w)}] : /\ \A p \in 1..Len(w) : IF s.kids[w[p]].fix THEN x[p] = w[p] ELSE ~s.kids[x[p]].fix
                                                  /\ \A p \in 1..Len(w) : Occ(x, w[p]) = Occ(w, w[p])}
All(s) == UNION {UNION {Expand(s, x) : x \in Arrange(s, Sorted(c, N(s)))} : c \in {c \in [1..N(s) -> 0..Target(s)] : CountOK(s, c)}}
=============================================================================
