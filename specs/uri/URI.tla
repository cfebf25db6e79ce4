-------------------------------- MODULE URI --------------------------------
(* URI references as RFC 2396 has them: components, resolution against a   *)
(* base, references relative to a base, escaping and http equivalence.     *)
(* Texts are sequences of octets; an optional component is <<>> or <<x>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SLASH == 47  QM == 63  COLON == 58  HASH == 35  PCT == 37  DOT == 46
Upper == 65..90
Lower == 97..122
Alpha == Upper \cup Lower
Digit == 48..57
Mark == {45, 95, 46, 33, 126, 42, 39, 40, 41}
Reserved == {59, 47, 63, 58, 64, 38, 61, 43, 36, 44}
Unreserved == Alpha \cup Digit \cup Mark
Hex == Digit \cup (65..70) \cup (97..102)
SchemeChar == Alpha \cup Digit \cup {43, 45, 46}
FirstIn(s, i, cs) == IF \E j \in i..Len(s) : s[j] \in cs THEN CHOOSE j \in i..Len(s) : s[j] \in cs /\ \A k \in i..j - 1 : s[k] \notin cs ELSE Len(s) + 1
FirstOut(s, i, cs) == IF \E j \in i..Len(s) : s[j] \notin cs THEN CHOOSE j \in i..Len(s) : s[j] \notin cs /\ \A k \in i..j - 1 : s[k] \in cs ELSE Len(s) + 1
From(s, i) == SubSeq(s, i, Len(s))
To(s, i) == SubSeq(s, 1, i)
Low(s) == [k \in 1..Len(s) |-> IF s[k] \in Upper THEN s[k] + 32 ELSE s[k]]

RECURSIVE Legal(_)
Legal(s) ==
  IF s = <<>> THEN TRUE
  ELSE IF Head(s) = PCT THEN Len(s) >= 3 /\ s[2] \in Hex /\ s[3] \in Hex /\ Legal(From(s, 4))
  ELSE Head(s) \in Reserved \cup Unreserved /\ Legal(Tail(s))

(* ------------------------------------------------------------ components *)
NoURI == [ok |-> FALSE, open |-> FALSE, scheme |-> <<>>, opaque |-> <<>>, auth |-> <<>>, abs |-> <<>>, rel |-> <<>>, query |-> <<>>, frag |-> <<>>]
Parse(s) ==
  LET h == FirstIn(s, 1, {HASH})  u == To(s, h - 1)
      k == FirstOut(u, 1, SchemeChar)
      isS == u # <<>> /\ u[1] \in Alpha /\ k <= Len(u) /\ u[k] = COLON
      rest == IF isS THEN From(u, k + 1) ELSE u
      net == Len(rest) >= 2 /\ rest[1] = SLASH /\ rest[2] = SLASH
      e == FirstIn(rest, 3, {SLASH, QM})
      rest2 == IF net THEN From(rest, e) ELSE rest
      q == FirstIn(rest2, 1, {QM})
      path == To(rest2, q - 1)
      opq == isS /\ (rest = <<>> \/ rest[1] # SLASH)
      base == [NoURI EXCEPT !.ok = TRUE, !.scheme = IF isS THEN <<To(u, k - 1)>> ELSE <<>>, !.frag = IF h <= Len(s) THEN <<From(s, h + 1)>> ELSE <<>>] IN
  IF ~Legal(u) THEN NoURI
  ELSE IF opq THEN [base EXCEPT !.open = (rest = <<>>), !.opaque = <<rest>>]
  ELSE [base EXCEPT !.auth = IF net THEN <<SubSeq(rest, 3, e - 1)>> ELSE <<>>,
                    !.query = IF q <= Len(rest2) THEN <<From(rest2, q + 1)>> ELSE <<>>,
                    !.abs = IF path # <<>> /\ path[1] = SLASH THEN <<path>> ELSE <<>>,
                    !.rel = IF ~isS /\ ~net /\ (path = <<>> \/ path[1] # SLASH) THEN <<path>> ELSE <<>>,
                    \* a colon in the first segment of a relative path is not part of the grammar
                    !.open = ~isS /\ ~net /\ FirstIn(path, 1, {COLON}) < FirstIn(path, 1, {SLASH})]
SameURI(a, b) == a.scheme = b.scheme /\ a.opaque = b.opaque /\ a.auth = b.auth /\ a.abs = b.abs /\ a.rel = b.rel /\ a.query = b.query /\ a.frag = b.frag
Pre(x, c) == IF x = <<>> THEN <<>> ELSE c \o x[1]
Text(u) == (IF u.scheme = <<>> THEN <<>> ELSE u.scheme[1] \o <<COLON>>) \o (IF u.opaque # <<>> THEN u.opaque[1] ELSE
  Pre(u.auth, <<SLASH, SLASH>>) \o Pre(u.abs, <<>>) \o Pre(u.rel, <<>>) \o Pre(u.query, <<QM>>)) \o Pre(u.frag, <<HASH>>)

(* ---------------------------------------------------------------- paths  *)
RECURSIVE Split(_)
Split(p) == LET j == FirstIn(p, 1, {SLASH}) IN IF j > Len(p) THEN <<p>> ELSE <<To(p, j - 1)>> \o Split(From(p, j + 1))
RECURSIVE Glue(_)
Glue(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<SLASH>> \o Glue(Tail(ss))
D1 == <<DOT>>
D2 == <<DOT, DOT>>
(* removes complete "." segments, and "<segment>/.." from left to right, as in 5.2 *)
NoDots(ss) == LET n == Len(ss) IN
  SelectSeq([k \in 1..n |-> IF ss[k] = D1 THEN (IF k = n THEN <<>> ELSE <<0>>) ELSE ss[k]], LAMBDA x : x # <<0>>)
RECURSIVE NoUps(_)
NoUps(ss) ==
  LET c == {k \in 1..Len(ss) - 1 : ss[k] # D2 /\ ss[k + 1] = D2} IN
  IF c = {} THEN ss
  ELSE LET k == CHOOSE k \in c : \A m \in c : k <= m IN
    NoUps(SubSeq(ss, 1, k - 1) \o (IF k + 1 = Len(ss) THEN <<<<>>>> ELSE SubSeq(ss, k + 2, Len(ss))))
Clean(ss) == LET t == NoUps(NoDots(ss)) IN IF t # <<>> /\ t[Len(t)] = D2 THEN t \o <<<<>>>> ELSE t
AbsClean(p) == <<SLASH>> \o Glue(Clean(Split(Tail(p))))
But(ss) == SubSeq(ss, 1, Len(ss) - 1)
CleanAbs(u) == IF u.abs = <<>> THEN u ELSE [u EXCEPT !.abs = <<AbsClean(u.abs[1])>>]
CleanRel(u) == IF u.rel = <<>> THEN u ELSE [u EXCEPT !.rel = <<Glue(Clean(Split(u.rel[1])))>>]

(* the reference r resolved against the base b (absolute and hierarchical) *)
Resolve(r, b) ==
  IF r.scheme = <<>> /\ r.auth = <<>> /\ r.query = <<>> /\ r.rel = <<<<>>>> THEN [b EXCEPT !.frag = r.frag]
  ELSE IF r.scheme # <<>> THEN r
  ELSE IF r.auth # <<>> \/ r.abs # <<>> THEN [r EXCEPT !.scheme = b.scheme, !.auth = IF r.auth # <<>> THEN r.auth ELSE b.auth]
  ELSE LET dir == IF b.abs = <<>> THEN <<>> ELSE But(Split(Tail(b.abs[1]))) IN
    [r EXCEPT !.scheme = b.scheme, !.auth = b.auth, !.rel = <<>>, !.abs = <<<<SLASH>> \o Glue(Clean(dir \o Split(r.rel[1])))>>]
(* left open: a path that cannot be told from an authority *)
Odd(u) == u.auth = <<>> /\ u.abs # <<>> /\ Len(u.abs[1]) >= 2 /\ u.abs[1][2] = SLASH
Base(u) == u.ok /\ ~u.open /\ u.scheme # <<>> /\ u.opaque = <<>>

(* ------------------------------------------------------------ relatives  *)
(* u relative to b must be possible *)
MustRel(u, b) == \/ u.opaque # <<>>
                 \/ u.scheme # <<>> /\ (b.scheme = <<>> \/ Low(u.scheme[1]) # Low(b.scheme[1]))
                 \/ u.scheme # <<>> /\ b.scheme # <<>> /\ b.opaque = <<>> /\ u.abs # <<>> /\ b.abs # <<>> /\ (u.auth = <<>>) = (b.auth = <<>>)
(* and it must be a reference without a scheme *)
Short(u, b) == u.opaque = <<>> /\ u.scheme # <<>> /\ u.scheme = b.scheme /\ b.opaque = <<>> /\ u.abs # <<>> /\ b.abs # <<>> /\ u.auth = b.auth
Norm(u) == LET c == CleanRel(CleanAbs(u)) IN IF c.scheme = <<>> THEN c ELSE [c EXCEPT !.scheme = <<Low(c.scheme[1])>>]

(* -------------------------------------------------------------- escaping *)
HexV(c) == IF c \in Digit THEN c - 48 ELSE IF c \in Upper THEN c - 55 ELSE c - 87
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Pct(c) == <<PCT, HexD(c \div 16), HexD(c % 16)>>
RECURSIVE Escape(_, _)
Escape(s, keep) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in keep THEN <<Head(s)>> ELSE Pct(Head(s))) \o Escape(Tail(s), keep)
Full(s, i) == i + 2 <= Len(s) /\ s[i] = PCT /\ s[i + 1] \in Hex /\ s[i + 2] \in Hex
RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Full(s, 1) THEN <<HexV(s[2]) * 16 + HexV(s[3])>> \o Unescape(From(s, 4))
  ELSE <<Head(s)>> \o Unescape(Tail(s))
WellEscaped(s) == \A i \in 1..Len(s) : s[i] = PCT => Full(s, i)
RECURSIVE Canon(_)
Canon(s) ==      \* of a legal text: unreserved characters plain, escapes in upper case
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) # PCT THEN <<Head(s)>> \o Canon(Tail(s))
  ELSE LET c == HexV(s[2]) * 16 + HexV(s[3]) IN (IF c \in Unreserved THEN <<c>> ELSE Pct(c)) \o Canon(From(s, 4))

(* -------------------------------------------------- http and https URLs  *)
(* authority: [userinfo@]host[:port] *)
Server(a) ==
  LET at == FirstIn(a, 1, {64})
      ui == IF at <= Len(a) THEN <<To(a, at - 1)>> ELSE <<>>
      hp == IF at <= Len(a) THEN From(a, at + 1) ELSE a
      c == FirstIn(hp, 1, {COLON}) IN
  [ui |-> ui, host |-> To(hp, c - 1), port |-> IF c <= Len(hp) THEN <<From(hp, c + 1)>> ELSE <<>>]
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Value(To(s, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
Https == <<104, 116, 116, 112, 115>>
HttpKey(u) ==
  LET v == Server(u.auth[1])  d == IF Low(u.scheme[1]) = Https THEN 443 ELSE 80 IN
  <<Low(u.scheme[1]), v.ui, Low(v.host), IF v.port \in {<<>>, <<<<>>>>} THEN d ELSE Value(v.port[1]),
    IF u.abs = <<>> THEN <<SLASH>> ELSE Canon(u.abs[1]), IF u.query = <<>> THEN <<>> ELSE <<Canon(u.query[1])>>, u.frag>>
=============================================================================
