------------------------------- MODULE Regex -------------------------------
(* Character classes as sets of characters, and XML Schema's regular          *)
(* expressions as sets of texts.                                              *)
EXTENDS Integers, Sequences, FiniteSets
MAX == 1114111
Between(p, a, z) == (a <= p /\ p <= z) \/ (z <= p /\ p <= a)

(* ---------------------------------------- classes: registers of sets       *)
(* what an operation does to the registers; P are the characters looked at   *)
Apply(P, S, o) ==
  CASE o.o = "range" -> [S EXCEPT ![o.r] = @ \union {p \in P : Between(p, o.a, o.z)}]
    [] o.o = "unrange" -> [S EXCEPT ![o.r] = {p \in @ : ~Between(p, o.a, o.z)}]
    [] o.o = "char" -> [S EXCEPT ![o.r] = @ \union {o.a}]
    [] o.o = "unchar" -> [S EXCEPT ![o.r] = @ \ {o.a}]
    [] o.o = "add" -> [S EXCEPT ![o.r] = @ \union S[o.q]]
    [] o.o = "sub" -> [S EXCEPT ![o.r] = @ \ S[o.q]]
    [] o.o = "neg" -> [S EXCEPT ![o.r] = P \ @]
    [] o.o = "copy" -> [S EXCEPT ![o.r] = S[o.q]]
    [] o.o = "new" -> [S EXCEPT ![o.r] = {p \in P : \E i \in 1..Len(o.cs) : p = o.cs[i]}]
(* every set is a union of intervals that begin and end at the characters that operations name or next to them:   *)
(* so looking at those, their neighbours and both ends of all is looking at everything                            *)
Named(ops) == UNION {IF "a" \in DOMAIN ops[i] THEN IF "z" \in DOMAIN ops[i] THEN {ops[i].a, ops[i].z} ELSE {ops[i].a}
                     ELSE IF "cs" \in DOMAIN ops[i] THEN {ops[i].cs[j] : j \in 1..Len(ops[i].cs)} ELSE {} : i \in 1..Len(ops)}
Look(ops) == {p \in UNION {{c - 1, c, c + 1} : c \in Named(ops)} \union {0, MAX} : p >= 0 /\ p <= MAX}

(* --------------------------------------------------- kinds of characters   *)
Ascii(a, z) == a..z
Cat(c) ==
  CASE c \in 97..122 \union {233, 945} -> "Ll"
    [] c \in 65..90 \union {201} -> "Lu"
    [] c \in {12354} -> "Lo"
    [] c \in 48..57 \union {1632} -> "Nd"
    [] c \in {178} -> "No"
    [] c \in {8544} -> "Nl"
    [] c \in {769} -> "Mn"
    [] c \in {32, 160} -> "Zs"
    [] c \in {8232} -> "Zl"
    [] c \in 0..31 -> "Cc"
    [] c \in {45} -> "Pd"
    [] c \in {95} -> "Pc"
    [] c \in {40, 91, 123} -> "Ps"
    [] c \in {41, 93, 125} -> "Pe"
    [] c \in {171} -> "Pi"
    [] c \in {187} -> "Pf"
    [] c \in {33, 34, 35, 37, 38, 39, 42, 44, 46, 47, 58, 59, 63, 64, 92} -> "Po"
    [] c \in {43, 60, 61, 62, 124, 126} -> "Sm"
    [] c \in {36, 8364} -> "Sc"
    [] c \in {94, 96} -> "Sk"
    [] OTHER -> "??"
Major(c) ==
  LET g == Cat(c) IN
  CASE g \in {"Ll", "Lu", "Lo"} -> "L" [] g \in {"Nd", "No", "Nl"} -> "N" [] g = "Mn" -> "M" [] g \in {"Zs", "Zl"} -> "Z"
    [] g = "Cc" -> "C" [] g \in {"Pd", "Pc", "Ps", "Pe", "Pi", "Pf", "Po"} -> "P" [] g \in {"Sm", "Sc", "Sk"} -> "S" [] OTHER -> "?"
Letter(c) == c \in 65..90 \union 97..122 \union {201, 233, 945, 12354}
NameCh(c) == Letter(c) \/ c \in 48..57 \union {45, 46, 58, 95, 183, 769, 1632, 8364, 8544}     \* as in the fifth edition of XML 1.0
Block(c, b) ==
  CASE b = "BasicLatin" -> c \in 0..127
    [] b = "Latin-1Supplement" -> c \in 128..255
    [] b = "LatinExtended-A" -> c \in 256..383
    [] b = "Hiragana" -> c \in 12352..12447
Esc(c, e) ==
  CASE e = "s" -> c \in {9, 10, 13, 32}
    [] e = "i" -> Letter(c) \/ c \in {95, 58}
    [] e = "c" -> NameCh(c)
    [] e = "d" -> Cat(c) = "Nd"
    [] e = "w" -> Major(c) \notin {"P", "Z", "C"}
Item(c, t) ==
  CASE t.k = "range" -> t.a <= c /\ c <= t.z
    [] t.k = "esc" -> Esc(c, t.e) # t.neg
    [] t.k = "cat" -> (Cat(c) = t.e \/ Major(c) = t.e) # t.neg
    [] t.k = "block" -> Block(c, t.e) # t.neg
RECURSIVE InClass(_, _)
InClass(c, e) ==
  /\ (\E i \in 1..Len(e.items) : Item(c, e.items[i])) # e.neg
  /\ (e.sub = <<>> \/ ~InClass(c, e.sub[1]))

(* ------------------------------------------------------------- matching   *)
(* the positions where a match of e that begins at i can end *)
RECURSIVE Ends(_, _, _)
RECURSIVE Row(_, _, _, _)
RECURSIVE Times(_, _, _, _)
RECURSIVE UpTo(_, _, _, _)
All(e, s, S) == UNION {Ends(e, s, j) : j \in S}
Ends(e, s, i) ==
  CASE e.k = "chr" -> IF i <= Len(s) /\ s[i] = e.c THEN {i + 1} ELSE {}
    [] e.k = "dot" -> IF i <= Len(s) /\ s[i] \notin {10, 13} THEN {i + 1} ELSE {}
    [] e.k = "cls" -> IF i <= Len(s) /\ InClass(s[i], e) THEN {i + 1} ELSE {}
    [] e.k = "one" -> IF i <= Len(s) /\ Item(s[i], e.t) THEN {i + 1} ELSE {}
    [] e.k = "alt" -> UNION {Ends(e.xs[j], s, i) : j \in 1..Len(e.xs)}
    [] e.k = "cat" -> Row(e.xs, s, {i}, 1)
    [] e.k = "rep" -> LET S == Times(e.x, s, {i}, e.n) IN UpTo(e.x, s, S, IF e.m < 0 THEN Len(s) + 1 ELSE e.m - e.n)
Row(xs, s, S, j) == IF j > Len(xs) THEN S ELSE Row(xs, s, All(xs[j], s, S), j + 1)
Times(x, s, S, n) == IF n = 0 \/ S = {} THEN S ELSE Times(x, s, All(x, s, S), n - 1)
UpTo(x, s, S, n) == IF n = 0 THEN S ELSE LET T == S \union All(x, s, S) IN IF T = S THEN S ELSE UpTo(x, s, T, n - 1)
(* expressions with a repetition of what can be empty, it or they without bound *)
RECURSIVE Nullable(_)
RECURSIVE Unbounded(_)
RECURSIVE Nested(_)
Nullable(e) == 1 \in Ends(e, <<>>, 1)
Unbounded(e) ==
  CASE e.k \in {"alt", "cat"} -> \E j \in 1..Len(e.xs) : Unbounded(e.xs[j])
    [] e.k = "rep" -> e.m # 0 /\ (e.m < 0 \/ Unbounded(e.x))
    [] OTHER -> FALSE
Nested(e) ==
  CASE e.k \in {"alt", "cat"} -> \E j \in 1..Len(e.xs) : Nested(e.xs[j])
    [] e.k = "rep" -> (Nullable(e.x) /\ (e.m < 0 \/ Unbounded(e.x))) \/ Nested(e.x)
    [] OTHER -> FALSE
Matches(e, s) == Len(s) + 1 \in Ends(e, s, 1)
=============================================================================
