------------------------------- MODULE HTTP --------------------------------
(* Header values of HTTP/1.1 (RFC 2616): the words of the grammar, what the  *)
(* productions mean, how values are ordered, and content negotiation.        *)
(* Text is a sequence of octets.  A parse is [st, v]: "ok" with the value,   *)
(* "err" (not in the language), or "open" (the library may be generous).     *)
EXTENDS Integers, Sequences, FiniteSets
CR == 13 LF == 10 SP == 32 HT == 9 DQ == 34 BS == 92
Seps == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125, 32, 9}
Ctl(c) == c < 32 \/ c = 127
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> Low(s[i])]
Upper(s) == [i \in 1..Len(s) |-> Up(s[i])]
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
RECURSIVE NumTo(_, _)
NumTo(s, n) == IF n = 0 THEN 0 ELSE 10 * NumTo(s, n - 1) + s[n] - 48
Num(s) == NumTo(s, Len(s))
Range(s) == {s[i] : i \in 1..Len(s)}
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0 - 1
RECURSIVE Split(_, _)
Split(s, c) == IF \E i \in 1..Len(s) : s[i] = c
  THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..i - 1 : s[j] # c
       IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
  ELSE <<s>>

(* ----------------------------------------------------------------- words *)
RECURSIVE Blank(_, _)
Blank(s, p) == IF At(s, p) \in {SP, HT} THEN Blank(s, p + 1) ELSE p
Fold(s, p) == At(s, p) = CR /\ At(s, p + 1) = LF /\ At(s, p + 2) \in {SP, HT}
(* the end of one LWS at p, p itself if there is none *)
LWS(s, p) == IF Fold(s, p) THEN Blank(s, p + 2) ELSE Blank(s, p)
RECURSIVE Space(_, _)
Space(s, p) == IF LWS(s, p) = p THEN p ELSE Space(s, LWS(s, p))
RECURSIVE TokEnd(_, _)
TokEnd(s, p) == IF p > Len(s) \/ s[p] \in Seps \/ Ctl(s[p]) THEN p ELSE TokEnd(s, p + 1)
Bad == [ok |-> FALSE, p |-> 0, v |-> <<>>]
(* the rest of a quoted string from p: its value, folds being replaced by a space *)
RECURSIVE QS(_, _, _)
QS(s, p, v) ==
  IF p > Len(s) THEN Bad
  ELSE IF s[p] = DQ THEN [ok |-> TRUE, p |-> p + 1, v |-> v]
  ELSE IF s[p] = BS THEN IF At(s, p + 1) \in 0..127 THEN QS(s, p + 2, Append(v, s[p + 1])) ELSE Bad
  ELSE IF Fold(s, p) THEN QS(s, LWS(s, p), Append(v, SP))
  ELSE IF Ctl(s[p]) /\ s[p] # HT THEN Bad ELSE QS(s, p + 1, Append(v, s[p]))
RECURSIVE Comment(_, _, _)
Comment(s, p, d) ==
  IF p > Len(s) THEN Bad
  ELSE IF s[p] = 41 THEN IF d = 1 THEN [ok |-> TRUE, p |-> p + 1, v |-> <<>>] ELSE Comment(s, p + 1, d - 1)
  ELSE IF s[p] = 40 THEN Comment(s, p + 1, d + 1)
  ELSE IF s[p] = BS THEN IF At(s, p + 1) \in 0..127 THEN Comment(s, p + 2, d) ELSE Bad
  ELSE IF Fold(s, p) THEN Comment(s, LWS(s, p), d)
  ELSE IF Ctl(s[p]) /\ s[p] # HT THEN Bad ELSE Comment(s, p + 1, d)
NoWords == [ok |-> FALSE, w |-> <<>>]
W(k, v) == <<[k |-> k, v |-> v]>>
RECURSIVE Lex(_, _, _)
Lex(s, p, w) ==
  IF p > Len(s) THEN [ok |-> TRUE, w |-> w]
  ELSE IF Space(s, p) > p THEN Lex(s, Space(s, p), w \o W("sp", <<>>))
  ELSE IF s[p] = DQ THEN LET q == QS(s, p + 1, <<>>) IN IF q.ok THEN Lex(s, q.p, w \o W("qs", q.v)) ELSE NoWords
  ELSE IF s[p] = 40 THEN LET q == Comment(s, p + 1, 1) IN IF q.ok THEN Lex(s, q.p, w \o W("com", <<>>)) ELSE NoWords
  ELSE IF s[p] \in Seps THEN Lex(s, p + 1, w \o W("sep", <<s[p]>>))
  ELSE IF Ctl(s[p]) THEN NoWords
  ELSE Lex(s, TokEnd(s, p), w \o W("tok", SubSeq(s, p, TokEnd(s, p) - 1)))
NotSp(x) == x.k # "sp"
Words(s) == Lex(s, 1, <<>>)
(* octets that are no CHARs are not allowed in tokens *)
High(w) == \E i \in 1..Len(w) : w[i].k = "tok" /\ \E j \in 1..Len(w[i].v) : w[i].v[j] > 127
End == [k |-> "end", v |-> <<>>]
G(w, i) == IF i <= Len(w) THEN w[i] ELSE End
Tok(w, i) == G(w, i).k = "tok"
Sep(w, i, c) == G(w, i).k = "sep" /\ G(w, i).v = <<c>>
Sp(w, i) == IF G(w, i).k = "sp" THEN i + 1 ELSE i
Val(w, i) == G(w, i).k \in {"tok", "qs"}
SLASH == 47 SEMI == 59 EQUALS == 61 COMMA == 44 STAR == <<42>>

(* ------------------------------------------------------------ parameters *)
(* [key, name, value] in the order of their last occurrence; i is the next word *)
Put(ps, x) == Append(SelectSeq(ps, LAMBDA y : y[1] # x[1]), x)
RECURSIVE Params(_, _, _, _, _)
Params(w, i, any, stop, ps) ==
  LET a == Sp(w, Sp(w, i))
      n == Sp(w, a + 1)                       \* the name
      e == IF any THEN Sp(w, n + 1) ELSE n + 1
      v == IF any THEN Sp(w, e + 1) ELSE e + 1
      key == Lower(G(w, n).v) IN
  IF Sep(w, a, SEMI) /\ Tok(w, n) /\ ~(stop /\ key = <<113>>) /\ Sep(w, e, EQUALS) /\ Val(w, v)
  THEN Params(w, v + 1, any, stop, Put(ps, <<key, G(w, n).v, G(w, v).v>>))
  ELSE [ps |-> ps, i |-> i]
OK(v) == [st |-> "ok", v |-> v]
Err == [st |-> "err", v |-> <<>>]
Open == [st |-> "open", v |-> <<>>]
None == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Got(v, i) == [ok |-> TRUE, i |-> i, v |-> v]
Whole(w, r) == IF r.ok /\ Sp(w, r.i) > Len(w) THEN OK(r.v) ELSE Err
Type(w, i, any, stop) ==
  IF Tok(w, i) /\ Sep(w, i + 1, SLASH) /\ Tok(w, i + 2)
  THEN LET p == Params(w, i + 3, any, stop, <<>>) IN Got([t |-> Lower(w[i].v), s |-> Lower(w[i + 2].v), ps |-> p.ps], p.i)
  ELSE None
MediaType(w) == Whole(w, Type(w, Sp(w, 1), FALSE, FALSE))
MediaRange(w) == Whole(w, Type(w, 1, FALSE, TRUE))
(* quality values in thousandths *)
Q(s) ==
  LET d == Split(s, 46)
      f == IF Len(d) = 2 THEN d[2] ELSE <<>>
      n == 1000 * Num(d[1]) + (IF Len(f) = 0 THEN 0 ELSE Num(f) * (IF Len(f) = 1 THEN 100 ELSE IF Len(f) = 2 THEN 10 ELSE 1)) IN
  IF Len(d) > 2 \/ ~Digits(d[1]) \/ (f # <<>> /\ ~Digits(f)) THEN <<>>
  ELSE IF Len(f) > 3 \/ Len(d[1]) > 4 THEN <<0 - 1>>         \* generous
  ELSE <<IF n > 1000 THEN 1000 ELSE n>>
(* a quality parameter at i *)
Quality(w, i) ==
  IF ~Sep(w, i, SEMI) THEN Got(1000, i)
  ELSE IF Tok(w, i + 1) /\ Lower(w[i + 1].v) = <<113>> /\ Sep(w, i + 2, EQUALS) /\ Tok(w, i + 3) /\ Q(w[i + 3].v) # <<>>
  THEN Got(Q(w[i + 3].v)[1], i + 4)
  ELSE None
Item(w, i) ==
  LET r == Type(w, i, FALSE, TRUE)
      q == Quality(w, r.i)
      x == Params(w, q.i, TRUE, FALSE, <<>>) IN
  IF ~r.ok THEN None ELSE IF ~q.ok THEN None
  ELSE IF q.i = r.i THEN Got([r |-> r.v, q |-> 1000, x |-> <<>>], q.i)
  ELSE Got([r |-> r.v, q |-> q.v, x |-> x.ps], x.i)
AToken(w, i) ==
  IF ~Tok(w, i) THEN None
  ELSE LET q == Quality(w, i + 1) IN IF q.ok THEN Got([t |-> w[i].v, q |-> q.v], q.i) ELSE None
(* an extension without a value is left open *)
AcceptItem(w) ==
  LET r == Item(w, 1)
      m == Whole(w, r) IN
  IF m.st = "err" /\ r.ok /\ r.i > 6 /\ Sep(w, r.i, SEMI) /\ Tok(w, r.i + 1) /\ ~Sep(w, r.i + 2, EQUALS) THEN Open ELSE m
AcceptToken(w) == Whole(w, AToken(w, 1))
(* #rule: elements between commas, null elements not counting; each piece is tried whole *)
RECURSIVE Pieces(_, _, _)
Pieces(w, i, cur) ==
  IF i > Len(w) THEN <<cur>>
  ELSE IF Sep(w, i, COMMA) THEN <<cur>> \o Pieces(w, i + 1, <<>>)
  ELSE Pieces(w, i + 1, Append(cur, w[i]))
Elements(w) == SelectSeq(Pieces(w, 1, <<>>), LAMBDA p : p # <<>>)
ListOf(rs) ==
  IF \E i \in 1..Len(rs) : rs[i].st = "err" THEN Err
  ELSE IF \E i \in 1..Len(rs) : rs[i].st = "open" THEN Open ELSE OK([i \in 1..Len(rs) |-> rs[i].v])
AcceptList(w) == LET e == Elements(w) IN IF e = <<>> THEN Err ELSE ListOf([i \in 1..Len(e) |-> AcceptItem(e[i])])
AcceptTokens(w) == LET e == Elements(w) IN ListOf([i \in 1..Len(e) |-> AcceptToken(e[i])])
(* ------------------------------------------------------------ the others *)
CHUNKED == <<99, 104, 117, 110, 107, 101, 100>>
Transfer(w) ==
  IF ~Tok(w, 1) THEN Err
  ELSE IF Lower(w[1].v) = CHUNKED THEN Whole(w, Got([t |-> CHUNKED, ps |-> <<>>], 2))
  ELSE LET p == Params(w, 2, TRUE, FALSE, <<>>) IN Whole(w, Got([t |-> Lower(w[1].v), ps |-> p.ps], p.i))
Prod(w, i) ==
  IF ~Tok(w, i) THEN None
  ELSE IF ~Sep(w, i + 1, SLASH) THEN Got([t |-> w[i].v, v |-> <<>>], i + 1)
  ELSE IF Tok(w, i + 2) THEN Got([t |-> w[i].v, v |-> <<w[i + 2].v>>], i + 3) ELSE None
Product(w) == Whole(w, Prod(w, 1))
RECURSIVE ProdList(_, _, _)
ProdList(w, i, acc) ==
  IF i > Len(w) THEN OK(acc)
  ELSE LET p == Prod(w, i) IN IF p.ok THEN ProdList(w, p.i, Append(acc, p.v)) ELSE Err
Products(w) == ProdList(w, 1, <<>>)
Alpha(s) == s # <<>> /\ Len(s) <= 8 /\ \A i \in 1..Len(s) : Low(s[i]) \in 97..122
Language(w) ==
  IF ~Tok(w, Sp(w, 1)) THEN Err
  ELSE LET r == Whole(w, Got(Split(w[Sp(w, 1)].v, 45), Sp(w, 1) + 1)) IN
       IF r.st = "ok" /\ \E i \in 1..Len(r.v) : ~Alpha(r.v[i]) THEN Open ELSE r
Blanks(p) == \A i \in 1..Len(p) : p[i].k = "sp"
Languages(w) == LET e == SelectSeq(Pieces(w, 1, <<>>), LAMBDA p : ~Blanks(p)) IN ListOf([i \in 1..Len(e) |-> Language(e[i])])
ETag(w) ==
  IF G(w, 1).k = "qs" THEN Whole(w, Got([t |-> w[1].v, w |-> 0], 2))
  ELSE IF Tok(w, 1) /\ Lower(w[1].v) = <<119>> /\ Sep(w, 2, SLASH) /\ G(w, 3).k = "qs" THEN Whole(w, Got([t |-> w[3].v, w |-> 1], 4))
  ELSE Err
Version(w) ==
  IF ~(Tok(w, 1) /\ Upper(w[1].v) = <<72, 84, 84, 80>> /\ Sep(w, 2, SLASH) /\ Tok(w, 3) /\ Len(w) = 3) THEN Err
  ELSE LET d == Split(w[3].v, 46) IN
       IF Len(d) = 2 /\ Digits(d[1]) /\ Digits(d[2]) THEN OK(<<Num(d[1]), Num(d[2])>>) ELSE Err
BYTES == <<98, 121, 116, 101, 115>>
ContentRange(w) ==
  LET d == Split(G(w, 2).v, 45) IN
  IF ~(Tok(w, 1) /\ Lower(w[1].v) = BYTES /\ Tok(w, 2) /\ Sep(w, 3, SLASH) /\ Tok(w, 4) /\ Len(w) = 4) THEN Err
  ELSE IF ~(w[4].v = STAR \/ Digits(w[4].v)) \/ ~(w[2].v = STAR \/ (Len(d) = 2 /\ Digits(d[1]) /\ Digits(d[2]))) THEN Err
  ELSE OK([r |-> IF w[2].v = STAR THEN <<>> ELSE <<Num(d[1]), Num(d[2])>>, n |-> IF w[4].v = STAR THEN <<>> ELSE <<Num(w[4].v)>>])
ValidRange(v) == v.r # <<>> /\ v.r[1] <= v.r[2] /\ (v.n = <<>> \/ v.r[2] < v.n[1])
Token1(w) == IF Len(w) = 1 /\ Tok(w, 1) THEN OK(w[1].v) ELSE IF \A i \in 1..Len(w) : Tok(w, i) THEN Open ELSE Err
Tokens(w) == LET e == Elements(w) IN ListOf([i \in 1..Len(e) |-> Token1(e[i])])
NONE == <<110, 111, 110, 101>>
AcceptRanges(w) ==
  LET r == Tokens(w) IN
  IF r.st # "ok" THEN r ELSE IF r.v = <<>> THEN Err
  ELSE IF \E i \in 1..Len(r.v) : Lower(r.v[i]) = NONE THEN IF Len(r.v) = 1 THEN OK(<<>>) ELSE Err
  ELSE r
Allow(w) == LET r == Tokens(w) IN IF r.st = "ok" THEN OK([i \in 1..Len(r.v) |-> Upper(r.v[i])]) ELSE r
(* cache directives: the last value of each counts; lists of fields, numbers, text *)
Deltas == {<<109, 97, 120, 45, 97, 103, 101>>, <<109, 97, 120, 45, 115, 116, 97, 108, 101>>, <<109, 105, 110, 45, 102, 114, 101, 115, 104>>, <<115, 45, 109, 97, 120, 97, 103, 101>>}
Fields == {<<110, 111, 45, 99, 97, 99, 104, 101>>, <<112, 114, 105, 118, 97, 116, 101>>}
Directive(w) ==
  LET d == Lower(G(w, 1).v)
      x == G(w, 3)
      l == Words(x.v) IN
  IF ~Tok(w, 1) THEN Err
  ELSE IF Len(w) = 1 THEN OK([d |-> d, k |-> "", v |-> <<>>])
  ELSE IF ~(Len(w) = 3 /\ Sep(w, 2, EQUALS) /\ Val(w, 3)) THEN Err
  ELSE IF d \in Deltas /\ x.k = "tok" /\ Digits(x.v) THEN OK([d |-> d, k |-> "n", v |-> <<Num(x.v)>>])
  ELSE IF d \in Deltas THEN Open
  ELSE IF d \in Fields /\ x.k = "qs"
  THEN IF ~l.ok THEN Err
       ELSE LET ts == Tokens(SelectSeq(l.w, NotSp)) IN IF ts.st = "ok" THEN OK([d |-> d, k |-> "f", v |-> ts.v]) ELSE Open
  ELSE OK([d |-> d, k |-> "s", v |-> x.v])
Cache(w) ==
  LET e == Elements(w)
      r == ListOf([i \in 1..Len(e) |-> Directive(e[i])]) IN
  IF e = <<>> THEN Err
  ELSE IF r.st = "ok" /\ Cardinality({r.v[i].d : i \in 1..Len(r.v)}) < Len(r.v) THEN Open ELSE r

(* ----------------------------------------------------------------- dates *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* 1 is Monday *)
WeekDay(y, m, d) ==
  LET t == <<0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4>>
      z == IF m < 3 THEN y - 1 ELSE y
      k == (z + (z \div 4) - (z \div 100) + (z \div 400) + t[m] + d) % 7 IN IF k = 0 THEN 7 ELSE k
DayNames == <<<<77, 111, 110>>, <<84, 117, 101>>, <<87, 101, 100>>, <<84, 104, 117>>, <<70, 114, 105>>, <<83, 97, 116>>, <<83, 117, 110>>>>
LongNames == <<<<77, 111, 110, 100, 97, 121>>, <<84, 117, 101, 115, 100, 97, 121>>, <<87, 101, 100, 110, 101, 115, 100, 97, 121>>, <<84, 104, 117, 114, 115, 100, 97, 121>>,
  <<70, 114, 105, 100, 97, 121>>, <<83, 97, 116, 117, 114, 100, 97, 121>>, <<83, 117, 110, 100, 97, 121>>>>
MonthNames == <<<<74, 97, 110>>, <<70, 101, 98>>, <<77, 97, 114>>, <<65, 112, 114>>, <<77, 97, 121>>, <<74, 117, 110>>, <<74, 117, 108>>, <<65, 117, 103>>, <<83, 101, 112>>,
  <<79, 99, 116>>, <<78, 111, 118>>, <<68, 101, 99>>>>
Named(names, s) == {i \in 1..Len(names) : Lower(names[i]) = Lower(s)}
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
GMT == <<71, 77, 84>>
Text1123(y, m, d, h, mi, s) ==
  DayNames[WeekDay(y, m, d)] \o <<44, 32>> \o Two(d) \o <<32>> \o MonthNames[m] \o <<32>> \o Four(y) \o <<32>> \o Two(h) \o <<58>> \o Two(mi) \o <<58>> \o Two(s) \o <<32>> \o GMT
Text850(y, m, d, h, mi, s) ==
  LongNames[WeekDay(y, m, d)] \o <<44, 32>> \o Two(d) \o <<45>> \o MonthNames[m] \o <<45>> \o Two(y % 100) \o <<32>> \o Two(h) \o <<58>> \o Two(mi) \o <<58>> \o Two(s) \o <<32>> \o GMT
TextC(y, m, d, h, mi, s) ==
  DayNames[WeekDay(y, m, d)] \o <<32>> \o MonthNames[m] \o <<32>> \o (IF d < 10 THEN <<32, 48 + d>> ELSE Two(d)) \o <<32>> \o Two(h) \o <<58>> \o Two(mi) \o <<58>> \o Two(s) \o <<32>> \o Four(y)
I(w, i) == IF Tok(w, i) /\ Digits(w[i].v) /\ Len(w[i].v) <= 6 THEN Num(w[i].v) ELSE 0 - 1
(* what the words say, if anything: <<weekday name, y, m, d, h, mi, s>> *)
Said(w) ==
  LET D(i) == Split(G(w, i).v, 45)
      ms(s) == Named(MonthNames, s)
      one(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
      wd == one(Named(DayNames, G(w, 1).v) \union Named(LongNames, G(w, 1).v))
      clock(i) == <<I(w, i), I(w, i + 2), I(w, i + 4)>>
      colons(i) == Sep(w, i + 1, 58) /\ Sep(w, i + 3, 58)
      gmt(i) == Tok(w, i) /\ Upper(w[i].v) = GMT /\ Len(w) = i IN
  IF wd = 0 THEN <<>>
  ELSE IF Sep(w, 2, COMMA) /\ I(w, 3) >= 0 /\ Tok(w, 4) /\ colons(6) /\ gmt(11) THEN <<wd, I(w, 5), one(ms(w[4].v)), I(w, 3)>> \o clock(6)
  ELSE IF Sep(w, 2, COMMA) /\ Tok(w, 3) /\ Len(D(3)) = 3 /\ Digits(D(3)[1]) /\ Digits(D(3)[3]) /\ Len(w[3].v) < 14 /\ colons(4) /\ gmt(9)
  THEN LET y == Num(D(3)[3]) IN <<wd, IF y < 90 THEN 2000 + y ELSE IF y < 100 THEN 1900 + y ELSE 0 - 1, one(ms(D(3)[2])), Num(D(3)[1])>> \o clock(4)
  ELSE IF Tok(w, 2) /\ I(w, 3) >= 0 /\ colons(4) /\ Len(w) = 9 THEN <<wd, I(w, 9), one(ms(w[2].v)), I(w, 3)>> \o clock(4)
  ELSE <<>>
FullDate(s, w) ==
  LET x == Said(w) IN
  IF x = <<>> THEN Err
  ELSE IF x[2] \notin 0..9999 \/ x[3] = 0 THEN Err
  ELSE IF x[4] \notin 1..Days(x[2], x[3]) \/ x[1] # WeekDay(x[2], x[3], x[4]) THEN Err
  ELSE IF x[5] \notin 0..24 \/ x[6] \notin 0..59 \/ x[7] \notin 0..60 THEN Err
  ELSE IF x[5] = 24 \/ x[7] = 60 \/ x[2] = 0 THEN Open
  ELSE LET f == SubSeq(x, 2, 7)
           strict == \/ s = Text1123(x[2], x[3], x[4], x[5], x[6], x[7])
                     \/ s = Text850(x[2], x[3], x[4], x[5], x[6], x[7]) /\ x[2] \in 1990..2089
                     \/ s = TextC(x[2], x[3], x[4], x[5], x[6], x[7]) IN
       [st |-> IF strict THEN "ok" ELSE "may", v |-> f]
(* a time z minutes ahead of GMT *)
InGMT(x, z) ==
  LET t == 60 * x[4] + x[5] - z
      h == (t % 1440) \div 60
      mi == t % 60
      day == IF t < 0 THEN (IF x[3] > 1 THEN <<x[1], x[2], x[3] - 1>> ELSE IF x[2] > 1 THEN <<x[1], x[2] - 1, Days(x[1], x[2] - 1)>> ELSE <<x[1] - 1, 12, 31>>)
             ELSE IF t >= 1440 THEN (IF x[3] < Days(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>> ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>)
             ELSE <<x[1], x[2], x[3]>> IN
  Text1123(day[1], day[2], day[3], h, mi, x[6])

(* --------------------------------------------------------------- parsing *)
Spaced == {"mt", "lt", "ltl"}       \* where white space between words matters
Meaning(k, s, w) ==
  CASE k = "mt" -> MediaType(w) [] k = "mr" -> MediaRange(w) [] k = "ai" -> AcceptItem(w) [] k = "al" -> AcceptList(w)
    [] k = "at" -> AcceptToken(w) [] k \in {"ac", "ae", "ag"} -> AcceptTokens(w) [] k = "te" -> Transfer(w) [] k = "pt" -> Product(w)
    [] k = "ptl" -> Products(w) [] k = "lt" -> Language(w) [] k = "ltl" -> Languages(w) [] k = "et" -> ETag(w) [] k = "hv" -> Version(w)
    [] k = "cr" -> ContentRange(w) [] k = "ar" -> AcceptRanges(w) [] k = "aw" -> Allow(w) [] k = "cc" -> Cache(w) [] k = "fd" -> FullDate(s, w)
Parse(k, s) ==
  LET l == Words(s)
      w == IF k \in Spaced THEN l.w ELSE SelectSeq(l.w, NotSp)
      m == Meaning(k, s, w) IN
  IF ~l.ok THEN Err ELSE IF High(w) /\ m.st = "ok" THEN Open ELSE m

(* ----------------------------------------------------------------- order *)
Sign(a, b) == IF a < b THEN 0 - 1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE CmpText(_, _)
CmpText(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE 0 - 1) ELSE IF b = <<>> THEN 1
  ELSE IF a[1] # b[1] THEN Sign(a[1], b[1]) ELSE CmpText(Tail(a), Tail(b))
RECURSIVE CmpSeq(_, _)       \* of sequences of texts
CmpSeq(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE 0 - 1) ELSE IF b = <<>> THEN 1
  ELSE LET c == CmpText(a[1], b[1]) IN IF c # 0 THEN c ELSE CmpSeq(Tail(a), Tail(b))
RECURSIVE First(_)           \* the first difference that counts
First(cs) == IF cs = <<>> THEN 0 ELSE IF cs[1] # 0 THEN cs[1] ELSE First(Tail(cs))
RECURSIVE SortText(_)
SortText(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : CmpSeq(x, y) <= 0 IN <<x>> \o SortText(S \ {x})
Flat(ps) == LET q == SortText({<<ps[i][1], ps[i][3]>> : i \in 1..Len(ps)}) IN [j \in 1..2 * Len(q) |-> q[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2]]
CmpParams(p, q) == CmpSeq(Flat(p), Flat(q))
CmpType(a, b) == First(<<CmpText(a.t, b.t), CmpText(a.s, b.s), CmpParams(a.ps, b.ps)>>)
Wild(a, b) == IF a = STAR THEN (IF b = STAR THEN 0 ELSE 1) ELSE IF b = STAR THEN 0 - 1 ELSE CmpText(a, b)
(* more specific ranges come first *)
CmpRange(a, b) == First(<<Wild(a.t, b.t), Wild(a.s, b.s), Sign(Len(b.ps), Len(a.ps)), CmpParams(a.ps, b.ps)>>)
CmpItem(a, b) == First(<<CmpRange(a.r, b.r), Sign(b.q, a.q)>>)
CmpToken(a, b) == First(<<Wild(Lower(a.t), Lower(b.t)), Sign(b.q, a.q)>>)
Tags(t) == IF t = STAR THEN <<>> ELSE LET d == Split(t, 45) IN [i \in 1..Len(d) |-> Lower(d[i])]
CmpTags(a, b) == First(<<Sign(Len(Tags(b.t)), Len(Tags(a.t))), CmpSeq(Tags(a.t), Tags(b.t)), Sign(b.q, a.q)>>)
(* versions: numbers and modifiers; a missing number is -1 *)
RECURSIVE Run(_, _)
Run(s, p) == IF p <= Len(s) /\ (s[p] \in 48..57) = (s[1] \in 48..57) THEN Run(s, p + 1) ELSE p
RECURSIVE Explode(_)
Explode(s) == IF s = <<>> THEN <<>> ELSE <<SubSeq(s, 1, Run(s, 1) - 1)>> \o Explode(SubSeq(s, Run(s, 1), Len(s)))
IsNum(x) == x # <<>> /\ x[1] \in 48..57
Part(s) == LET e == Explode(s) IN IF e # <<>> /\ ~IsNum(e[1]) THEN <<<<>>>> \o e ELSE e
CmpPart(a, b) == IF IsNum(a) \/ IsNum(b) THEN Sign(IF IsNum(a) THEN Num(a) ELSE 0 - 1, IF IsNum(b) THEN Num(b) ELSE 0 - 1) ELSE CmpText(a, b)
RECURSIVE CmpParts(_, _)     \* "1.0a" is before "1.0"
CmpParts(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE 1) ELSE IF b = <<>> THEN 0 - 1
  ELSE LET c == CmpPart(a[1], b[1]) IN IF c # 0 THEN c ELSE CmpParts(Tail(a), Tail(b))
RECURSIVE CmpDots(_, _)
CmpDots(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE 0 - 1) ELSE IF b = <<>> THEN 1
  ELSE LET c == CmpParts(Part(a[1]), Part(b[1])) IN IF c # 0 THEN c ELSE CmpDots(Tail(a), Tail(b))
Dots(v) == IF v = <<>> THEN <<>> ELSE IF v[1] = <<>> THEN <<>> ELSE LET d == Split(v[1], 46) IN IF d[Len(d)] = <<>> THEN SubSeq(d, 1, Len(d) - 1) ELSE d
CmpProduct(a, b) == First(<<CmpText(a.t, b.t), CmpDots(Dots(a.v), Dots(b.v))>>)
LowSeq(v) == [i \in 1..Len(v) |-> Lower(v[i])]
Compare(k, a, b) ==
  CASE k = "mt" -> CmpType(a, b) [] k = "mr" -> CmpRange(a, b) [] k = "ai" -> CmpItem(a, b) [] k = "at" -> CmpToken(a, b)
    [] k = "ag" -> CmpTags(a, b) [] k = "te" -> First(<<CmpText(a.t, b.t), CmpParams(a.ps, b.ps)>>) [] k = "pt" -> CmpProduct(a, b)
    [] k = "lt" -> CmpSeq(LowSeq(a), LowSeq(b)) [] k = "et" -> First(<<CmpText(a.t, b.t), Sign(a.w, b.w)>>)
    [] k = "hv" -> First(<<Sign(a[1], b[1]), Sign(a[2], b[2])>>)

(* ----------------------------------------------------------- negotiation *)
Has(ps, x) == \E i \in 1..Len(ps) : ps[i][1] = x[1] /\ ps[i][3] = x[3]
Matches(r, m) == (r.t = STAR \/ r.t = m.t) /\ (r.s = STAR \/ r.s = m.s) /\ \A i \in 1..Len(r.ps) : Has(m.ps, r.ps[i])
(* the quality that the most specific of the matching items S gives; -1 if there is none *)
Best(S, q(_), before(_, _)) == IF S = {} THEN 0 - 1 ELSE q(CHOOSE x \in S : \A y \in S : before(x, y))
QOf(x) == x.q
TypeQ(al, m) == Best({x \in Range(al) : Matches(x.r, m)}, QOf, LAMBDA x, y : CmpItem(x, y) <= 0)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
LangQ(al, t) == Best({x \in Range(al) : Prefix(Tags(x.t), LowSeq(t))}, QOf, LAMBDA x, y : CmpTags(x, y) <= 0)
TokenQ(al, t) == Best({x \in Range(al) : x.t = STAR \/ Lower(x.t) = Lower(t)}, QOf, LAMBDA x, y : CmpToken(x, y) <= 0)
LATIN1 == <<105, 115, 111, 45, 56, 56, 53, 57, 45, 49>>
IDENTITY == <<105, 100, 101, 110, 116, 105, 116, 121>>
(* what each offer is worth, in half thousandths: identity is acceptable unless it is excluded, but only just *)
Worth(k, al, o) ==
  LET q == IF k = "al" THEN TypeQ(al, o) ELSE IF k = "ag" THEN LangQ(al, o) ELSE TokenQ(al, o) IN
  IF q >= 0 THEN 2 * q
  ELSE IF k = "ac" /\ Lower(o) = LATIN1 THEN 2000
  ELSE IF k = "ae" /\ Lower(o) = IDENTITY THEN 1 ELSE 0
(* the first of the best offers, 0 if nothing is acceptable *)
Choose(k, al, os) ==
  LET v == [i \in 1..Len(os) |-> Worth(k, al, os[i])] IN
  IF \A i \in 1..Len(os) : v[i] = 0 THEN 0
  ELSE CHOOSE i \in 1..Len(os) : v[i] > 0 /\ \A j \in 1..Len(os) : v[i] > v[j] \/ (v[i] = v[j] /\ i <= j)
============================================================================
