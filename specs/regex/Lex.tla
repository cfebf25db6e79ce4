-------------------------------- MODULE Lex --------------------------------
(* Lexical spaces and canonical forms of XML Schema's simple types.  Texts   *)
(* are sequences of characters; a refused text is Err.                       *)
EXTENDS Integers, Sequences, FiniteSets
Err == <<-1>>
White(c) == c \in {9, 10, 13, 32}
Digit(c) == c \in 48..57
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
Replace(s) == [i \in 1..Len(s) |-> IF White(s[i]) THEN 32 ELSE s[i]]
RECURSIVE Words(_, _)                    \* the words of a text; w is the one being read
Words(s, w) ==
  IF s = <<>> THEN IF w = <<>> THEN <<>> ELSE <<w>>
  ELSE IF White(s[1]) THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Words(Tail(s), <<>>)
  ELSE Words(Tail(s), Append(w, s[1]))
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o Spaced(Tail(ws))
Collapse(s) == Spaced(Words(s, <<>>))
RECURSIVE Lead(_)                        \* without leading zeros, and without zeros at the end
Lead(s) == IF s # <<>> /\ s[1] = 48 THEN Lead(Tail(s)) ELSE s
RECURSIVE Trail(_)
Trail(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN Trail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Or0(s) == IF s = <<>> THEN <<48>> ELSE s
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Minus(s) == IF s # <<>> /\ s[1] = 45 THEN <<45>> ELSE <<>>
Whl(s) == IF ~Digits(Body(s)) THEN Err ELSE LET d == Lead(Body(s)) IN IF d = <<>> THEN <<48>> ELSE Minus(s) \o d
TRUE_ == <<116, 114, 117, 101>>
FALSE_ == <<102, 97, 108, 115, 101>>
Bool(s) == IF s \in {TRUE_, <<49>>} THEN TRUE_ ELSE IF s \in {FALSE_, <<48>>} THEN FALSE_ ELSE Err
Points(s) == {i \in 1..Len(s) : s[i] = 46}
Point(s) == IF Points(s) = {} THEN Len(s) + 1 ELSE CHOOSE i \in Points(s) : TRUE
Whole(s) == SubSeq(s, 1, Point(s) - 1)
Frac(s) == SubSeq(s, Point(s) + 1, Len(s))
DecOK(s) ==
  LET b == Body(s) IN
  Cardinality(Points(b)) <= 1 /\ Whole(b) \o Frac(b) # <<>> /\ Digits(Whole(b) \o Frac(b))
Zero(s) == Lead(Whole(Body(s)) \o Frac(Body(s))) = <<>>
Dec(s) ==
  IF ~DecOK(s) THEN Err
  ELSE IF Zero(s) THEN <<48, 46, 48>>
  ELSE Minus(s) \o Or0(Lead(Whole(Body(s)))) \o <<46>> \o Or0(Trail(Frac(Body(s))))
Es(s) == {i \in 1..Len(s) : s[i] \in {69, 101}}
RECURSIVE Num(_, _)
Num(s, n) == IF s = <<>> THEN n ELSE Num(Tail(s), n * 10 + s[1] - 48)
Val(s) == LET n == Num(Body(s), 0) IN IF Minus(s) = <<>> THEN n ELSE 0 - n
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Nat10(n \div 10) \o <<48 + (n % 10)>>
Show(n) == IF n < 0 THEN <<45>> \o Nat10(0 - n) ELSE Nat10(n)
INF == <<73, 78, 70>>
NAN == <<78, 97, 78>>
Z == <<48, 46, 48, 69, 48>>
(* the exponent of the first digit that counts *)
Power(m) == LET b == Body(m) w == Lead(Whole(b)) IN
  IF w # <<>> THEN Len(w) - 1 ELSE 0 - (Len(Frac(b)) - Len(Lead(Frac(b))) + 1)
Dbl(s, low, high) ==
  IF s \in {INF, <<45>> \o INF, NAN} THEN s
  ELSE LET i == IF Es(s) = {} THEN Len(s) + 1 ELSE CHOOSE i \in Es(s) : TRUE
           m == SubSeq(s, 1, i - 1)
           x == IF Es(s) = {} THEN <<48>> ELSE SubSeq(s, i + 1, Len(s)) IN
       IF Cardinality(Es(s)) > 1 \/ ~DecOK(m) \/ ~Digits(Body(x)) THEN Err
       ELSE IF Zero(m) THEN Z
       ELSE LET e == Power(m) + Val(x)
                d == Trail(Lead(Whole(Body(m)) \o Frac(Body(m)))) IN
            IF e > high THEN Minus(m) \o INF ELSE IF e < low THEN Z
            ELSE Minus(m) \o <<d[1], 46>> \o Or0(Tail(d)) \o <<69>> \o Show(e)
(* ---------------------------------------------- enumerations: names are in lower case *)
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> Low(s[i])]
(* table: <<[n |-> name, v |-> value]>>, the first name of a value being the canonical one *)
Find(t, w) == LET f == {i \in 1..Len(t) : t[i].n = w} IN IF f = {} THEN 0 ELSE t[CHOOSE i \in f : TRUE].v
NameOf(t, v) == t[CHOOSE i \in 1..Len(t) : t[i].v = v /\ \A j \in 1..i - 1 : t[j].v # v].n
Values(t, s, lower) == LET w == Words(s, <<>>) IN [i \in 1..Len(w) |-> Find(t, IF lower THEN Lower(w[i]) ELSE w[i])]
First(vs, v) == CHOOSE i \in 1..Len(vs) : vs[i] = v /\ \A j \in 1..i - 1 : vs[j] # v
=============================================================================
