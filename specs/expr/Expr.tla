------------------------------- MODULE Expr ---------------------------------
(* The OData (v2) common expression language: grammar (operator precedence, *)
(* left association, unary operators, member access, method calls, isof and *)
(* cast) and evaluation over typed values with nulls.                       *)
(* A value is [t, n, u, x, a, d, s]: type, null?, unspecified value?,       *)
(* inexact?, exact rational a/d, sequence (code points, date fields, bytes).*)
EXTENDS Integers, Sequences, FiniteSets, TLC

---------------------------------------------------------------- (* grammar *)
BinPrec == [o \in {"or","and","eq","ne","lt","gt","le","ge","add","sub","mul","div","mod"} |->
  CASE o = "or" -> 1 [] o = "and" -> 2 [] o \in {"eq","ne"} -> 3 [] o \in {"lt","gt","le","ge"} -> 4
    [] o \in {"add","sub"} -> 5 [] OTHER -> 6]
BinOps == DOMAIN BinPrec
Methods == {"endswith","indexof","replace","startswith","tolower","toupper","trim","substring","substringof","concat",
            "length","year","month","day","hour","minute","second","round","floor","ceiling"}

\* tokens are <<kind, text>>: "lit" literal, "name" identifier, "sym" one of ( ) , / -
Bad == [ok |-> "bad", a |-> <<"bad">>, p |-> 0]
Unspec == [ok |-> "unspec", a |-> <<"unspec">>, p |-> 0]
Good(a, p) == [ok |-> "ok", a |-> a, p |-> p]
Kind(ts, p) == IF p > Len(ts) THEN "end" ELSE ts[p][1]
IsSym(ts, p, c) == p <= Len(ts) /\ ts[p][1] = "sym" /\ ts[p][2] = c
IsName(ts, p) == p <= Len(ts) /\ ts[p][1] = "name"
StrLit(ts, a) == a[1] = "lit" /\ a[2] \in {ts[i][2] : i \in {j \in 1..Len(ts) : ts[j][1] = "lit" /\ ts[j][3] = "String"}}

RECURSIVE PExpr(_, _, _), PLoop(_, _, _, _), PUnary(_, _), PPost(_, _, _), PPrim(_, _), PArgs(_, _, _)
\* an expression whose binary operators all have precedence >= m
PExpr(ts, p, m) == LET l == PUnary(ts, p) IN IF l.ok # "ok" THEN l ELSE PLoop(ts, l.a, l.p, m)
PLoop(ts, l, p, m) ==
  IF IsName(ts, p) /\ ts[p][2] \in BinOps /\ BinPrec[ts[p][2]] >= m
  THEN LET r == PExpr(ts, p + 1, BinPrec[ts[p][2]] + 1) IN
       IF r.ok # "ok" THEN r ELSE PLoop(ts, <<"bin", ts[p][2], l, r.a>>, r.p, m)
  ELSE Good(l, p)
PUnary(ts, p) ==
  IF IsName(ts, p) /\ ts[p][2] = "not"
  THEN LET r == PUnary(ts, p + 1) IN IF r.ok # "ok" THEN r ELSE Good(<<"un", "not", r.a>>, r.p)
  ELSE IF IsSym(ts, p, "-")
  THEN LET r == PUnary(ts, p + 1) IN IF r.ok # "ok" THEN r ELSE Good(<<"un", "-", r.a>>, r.p)
  ELSE LET r == PPrim(ts, p) IN IF r.ok # "ok" THEN r ELSE PPost(ts, r.a, r.p)
\* member access applies to a property or to another member access
PPost(ts, l, p) ==
  IF ~IsSym(ts, p, "/") THEN Good(l, p)
  ELSE IF p + 1 > Len(ts) THEN Bad
  ELSE IF ~(l[1] \in {"prop"} \/ (l[1] = "bin" /\ l[2] = "/")) THEN Unspec
  ELSE IF ~IsName(ts, p + 1) \/ ts[p+1][2] \in {"not", "isof", "cast"} \/ IsSym(ts, p + 2, "(")
       THEN IF Kind(ts, p + 1) = "sym" /\ ts[p+1][2] \in {")", ",", "/"} THEN Bad ELSE Unspec
  ELSE PPost(ts, <<"bin", "/", l, <<"prop", ts[p+1][2]>>>>, p + 2)
PPrim(ts, p) ==
  CASE Kind(ts, p) = "lit" -> Good(<<"lit", ts[p][2]>>, p + 1)
    [] IsSym(ts, p, "(") -> LET r == PExpr(ts, p + 1, 1) IN
         IF r.ok # "ok" THEN r ELSE IF IsSym(ts, r.p, ")") THEN Good(r.a, r.p + 1) ELSE Bad
    [] IsName(ts, p) /\ ts[p][2] \in {"isof", "cast"} ->
         IF ~IsSym(ts, p + 1, "(") THEN Bad
         ELSE LET r == PArgs(ts, p + 2, <<>>) IN
              IF r.ok # "ok" THEN r
              ELSE IF Len(r.a) > 2 THEN Bad
              ELSE IF StrLit(ts, r.a[Len(r.a)]) THEN Good(<<"call", ts[p][2], r.a>>, r.p) ELSE Bad
    [] IsName(ts, p) /\ IsSym(ts, p + 1, "(") ->
         IF ts[p][2] \notin Methods THEN Bad
         ELSE LET r == PArgs(ts, p + 2, <<>>) IN
              IF r.ok # "ok" THEN r ELSE Good(<<"call", ts[p][2], r.a>>, r.p)
    [] IsName(ts, p) /\ ts[p][2] \in BinOps -> Unspec     \* a property named like an operator
    [] IsName(ts, p) -> Good(<<"prop", ts[p][2]>>, p + 1)
    [] OTHER -> Bad
PArgs(ts, p, acc) ==
  LET r == PExpr(ts, p, 1) IN
  IF r.ok # "ok" THEN r
  ELSE IF IsSym(ts, r.p, ",") THEN PArgs(ts, r.p + 1, Append(acc, r.a))
  ELSE IF IsSym(ts, r.p, ")") THEN Good(Append(acc, r.a), r.p + 1)
  ELSE Bad
\* the whole text must be used
Parse(ts) == LET r == PExpr(ts, 1, 1) IN IF r.ok # "ok" THEN r ELSE IF r.p = Len(ts) + 1 THEN r ELSE Bad

---------------------------------------------------------------- (* printing, used to state the round trip *)
S(c) == <<"sym", c, "">>
N(c) == <<"name", c, "">>
PrecOf(a) == IF a[1] = "bin" THEN (IF a[2] = "/" THEN 9 ELSE BinPrec[a[2]]) ELSE IF a[1] = "un" THEN 7 ELSE 10
RECURSIVE Show(_)
Wrap(a, m) == IF PrecOf(a) < m THEN <<S("(")>> \o Show(a) \o <<S(")")>> ELSE Show(a)
Show(a) ==
  CASE a[1] = "prop" -> <<N(a[2])>>
    [] a[1] = "lit" -> <<<<"lit", a[2], "">>>>
    [] a[1] = "un" -> <<IF a[2] = "-" THEN S("-") ELSE N("not")>> \o Wrap(a[3], 7)
    [] a[1] = "bin" /\ a[2] = "/" -> Show(a[3]) \o <<S("/")>> \o Show(a[4])
    [] a[1] = "bin" -> Wrap(a[3], PrecOf(a)) \o <<N(a[2])>> \o Wrap(a[4], PrecOf(a) + 1)

---------------------------------------------------------------- (* values *)
V(t, n, u, x, a, d, s) == [t |-> t, n |-> n, u |-> u, x |-> x, a |-> a, d |-> d, s |-> s]
NullV(t) == V(t, TRUE, FALSE, FALSE, 0, 1, <<>>)
AnyV(t) == V(t, FALSE, TRUE, FALSE, 0, 1, <<>>)
Err == V("ERR", FALSE, FALSE, FALSE, 0, 1, <<>>)      \* EvaluationError
Unk == V("UNK", FALSE, TRUE, FALSE, 0, 1, <<>>)       \* behaviour not specified
Bool(b) == V("Boolean", FALSE, FALSE, FALSE, IF b THEN 1 ELSE 0, 1, <<>>)
I32(i) == V("Int32", FALSE, FALSE, FALSE, i, 1, <<>>)
Str(s) == V("String", FALSE, FALSE, FALSE, 0, 1, s)
Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lim == 20000
Rat(t, x, a, d) == LET g == Gcd(Abs(a), Abs(d))
                       a1 == IF d < 0 THEN -a \div g ELSE a \div g
                       d1 == Abs(d) \div g IN
                   IF Abs(a1) > Lim \/ d1 > Lim THEN AnyV(t) ELSE V(t, FALSE, FALSE, x, a1, d1, <<>>)
Dyadic(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
RECURSIVE Only25(_)
Only25(d) == IF d = 1 THEN TRUE ELSE IF d % 2 = 0 THEN Only25(d \div 2) ELSE IF d % 5 = 0 THEN Only25(d \div 5) ELSE FALSE

NumTypes == {"Double", "Single", "Decimal", "Int64", "Int32", "Int16", "Byte"}
Ordinary == {"Double", "Single", "Decimal", "Int64", "Int32"}
Small == {"Int16", "Byte"}
Order == <<"Double", "Single", "Decimal", "Int64", "Int32", "Int16", "Byte">>
Simple == NumTypes \cup {"SByte", "String", "Boolean", "DateTime", "DateTimeOffset", "Time", "Guid", "Binary", "Null"}
Promote(s, t) == IF s = t THEN s ELSE IF s = "Null" THEN t ELSE IF t = "Null" THEN s
  ELSE IF s \notin NumTypes \/ t \notin NumTypes THEN "ERR"
  ELSE Order[CHOOSE i \in 1..7 : Order[i] \in {s, t} /\ \A j \in 1..(i-1) : Order[j] \notin {s, t}]
\* a value moved to type t; a decimal fraction is not exact in binary
To(t, v) == [v EXCEPT !.t = t, !.x = v.x \/ (t \in {"Double", "Single"} /\ ~Dyadic(v.d))]

Trunc(a, d) == IF a < 0 THEN -((-a) \div d) ELSE a \div d       \* towards zero, d > 0
Arith(op, l, r) ==
  LET t == Promote(l.t, r.t) IN
  IF t = "ERR" THEN Err
  ELSE IF t = "Null" THEN NullV("Int32")
  ELSE IF t \in Small THEN Unk
  ELSE IF t \notin Ordinary THEN Err
  ELSE IF l.n \/ r.n THEN NullV(t)
  ELSE IF l.u \/ r.u THEN Unk
  ELSE LET lv == To(t, l) rv == To(t, r) xx == lv.x \/ rv.x IN
    CASE op = "add" -> Rat(t, xx, lv.a * rv.d + rv.a * lv.d, lv.d * rv.d)
      [] op = "sub" -> Rat(t, xx, lv.a * rv.d - rv.a * lv.d, lv.d * rv.d)
      [] op = "mul" -> Rat(t, xx, lv.a * rv.a, lv.d * rv.d)
      [] op \in {"div", "mod"} ->
         IF rv.a = 0 THEN (IF xx THEN Unk ELSE Err)
         ELSE LET sg == IF rv.a < 0 THEN -1 ELSE 1
                  na == sg * lv.a * rv.d
                  nd == Abs(rv.a) * lv.d
                  q == Trunc(na, nd) IN
              IF op = "div"
              THEN IF t \in {"Int32", "Int64"} THEN Rat(t, FALSE, q, 1)
                   ELSE LET w == Rat(t, xx, na, nd) IN
                        IF w.u THEN w ELSE [w EXCEPT !.x = xx \/ ~(IF t = "Decimal" THEN Only25(w.d) ELSE Dyadic(w.d))]
              ELSE IF xx /\ t # "Decimal" THEN AnyV(t)
                   ELSE IF Abs(q) > 2000 THEN AnyV(t)
                   ELSE LET w == Rat(t, xx, lv.a * rv.d - q * rv.a * lv.d, lv.d * rv.d) IN
                        w

RECURSIVE SeqLt(_, _)
SeqLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLt(Tail(a), Tail(b))
CmpHolds(op, lt, eq) == CASE op = "lt" -> lt [] op = "le" -> lt \/ eq [] op = "gt" -> ~lt /\ ~eq [] op = "ge" -> ~lt
Relation(op, l, r) ==
  LET t == Promote(l.t, r.t) IN
  IF t = "ERR" THEN Err
  ELSE IF t \in Small THEN Unk
  ELSE IF t = "Null" THEN Bool(FALSE)
  ELSE IF t \notin Ordinary \cup {"String", "DateTime", "Guid"} THEN Err
  ELSE IF l.n \/ r.n THEN Bool(FALSE)
  ELSE IF l.u \/ r.u \/ l.x \/ r.x THEN AnyV("Boolean")
  ELSE IF t \in Ordinary
       THEN LET lv == To(t, l) rv == To(t, r) lt == lv.a * rv.d < rv.a * lv.d eq == lv.a * rv.d = rv.a * lv.d IN
            IF (lv.x \/ rv.x) /\ eq THEN AnyV("Boolean") ELSE Bool(CmpHolds(op, lt, eq))
       ELSE Bool(CmpHolds(op, SeqLt(l.s, r.s), l.s = r.s))
Equal(l, r) ==
  LET t == Promote(l.t, r.t) IN
  IF t = "ERR" THEN Err
  ELSE IF t \in Small \cup {"Boolean"} THEN Unk
  ELSE IF t = "Null" THEN Bool(TRUE)
  ELSE IF t \notin Ordinary \cup {"String", "DateTime", "Guid", "Binary"} THEN Err
  ELSE IF l.n \/ r.n THEN Bool(l.n /\ r.n)
  ELSE IF l.u \/ r.u \/ l.x \/ r.x THEN AnyV("Boolean")
  ELSE IF t \in Ordinary
       THEN LET lv == To(t, l) rv == To(t, r) eq == lv.a * rv.d = rv.a * lv.d IN
            IF (lv.x \/ rv.x) /\ eq THEN AnyV("Boolean") ELSE Bool(eq)
       ELSE Bool(l.s = r.s)
Flip(v) == IF v.t = "Boolean" /\ ~v.u THEN [v EXCEPT !.a = 1 - v.a] ELSE v
Logic(op, l, r) ==
  LET t == Promote(l.t, r.t) IN
  IF t = "Null" THEN Bool(FALSE)
  ELSE IF t # "Boolean" THEN Err
  ELSE IF l.n \/ r.n THEN Bool(FALSE)                  \* two-valued: null counts as false
  ELSE IF l.u \/ r.u THEN AnyV("Boolean")
  ELSE Bool(IF op = "and" THEN l.a = 1 /\ r.a = 1 ELSE l.a = 1 \/ r.a = 1)

Not(v) == IF v.t \notin Simple THEN Err ELSE IF v.n THEN NullV("Boolean") ELSE IF v.t = "Boolean" THEN Flip(v) ELSE Err
Neg(v) ==
  LET t == IF v.t \in Small THEN "Int32" ELSE IF v.t = "Single" THEN "Double" ELSE v.t IN
  IF v.t = "Null" THEN NullV("Int32")
  ELSE IF t \notin {"Int32", "Int64", "Double", "Decimal"} THEN Err
  ELSE IF v.n THEN NullV(t) ELSE [v EXCEPT !.t = t, !.a = -v.a]

---------------------------------------------------------------- (* methods *)
SubAt(s, t, i) == i + Len(t) - 1 <= Len(s) /\ \A j \in 1..Len(t) : s[i + j - 1] = t[j]
Find(s, t) == IF \E i \in 1..(Len(s) + 1) : SubAt(s, t, i)
              THEN (CHOOSE i \in 1..(Len(s) + 1) : SubAt(s, t, i) /\ \A k \in 1..(i-1) : ~SubAt(s, t, k)) - 1 ELSE -1
RECURSIVE Repl(_, _, _)
Repl(s, f, t) == IF Len(s) < Len(f) THEN s
                 ELSE IF SubAt(s, f, 1) THEN t \o Repl(SubSeq(s, Len(f) + 1, Len(s)), f, t)
                 ELSE <<s[1]>> \o Repl(Tail(s), f, t)
White == {9, 10, 11, 12, 13, 32}
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in White THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in White THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
MapSeq(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Sub(s, i, n) == SubSeq(s, i + 1, IF i + n > Len(s) THEN Len(s) ELSE i + n)   \* n characters from offset i
ResType == [m \in Methods |-> CASE m \in {"endswith", "startswith", "substringof"} -> "Boolean"
   [] m \in {"indexof", "length", "year", "month", "day", "hour", "minute", "second"} -> "Int32"
   [] OTHER -> "String"]
Arity == [m \in Methods |-> CASE m \in {"endswith", "startswith", "substringof", "indexof", "concat"} -> {2}
   [] m = "replace" -> {3} [] m = "substring" -> {2, 3} [] OTHER -> {1}]
Dates == {"year", "month", "day", "hour", "minute", "second"}
DateField == [year |-> 1, month |-> 2, day |-> 3, hour |-> 4, minute |-> 5, second |-> 6]
Strict == {"concat", "length"}         \* whether an untyped null is allowed here is not specified
Floor(a, d) == a \div d                 \* TLC rounds towards minus infinity for d > 0
RoundV(m, v) ==
  IF v.t = "Null" THEN NullV("Decimal")
  ELSE IF v.t \notin NumTypes THEN Err
  ELSE LET t == IF v.t \in {"Double", "Single", "Byte"} THEN "Double" ELSE "Decimal"
           f == Floor(v.a, v.d)
           tw == 2 * (v.a - f * v.d)            \* twice the fraction, in units of 1/d
           r == IF tw > v.d THEN f + 1 ELSE IF tw < v.d THEN f
                ELSE IF t = "Double" THEN (IF f % 2 = 0 THEN f ELSE f + 1)       \* half to even
                ELSE IF v.a < 0 THEN f ELSE f + 1                                \* half away from zero
       IN
       IF v.n THEN NullV(t) ELSE IF v.u \/ v.x THEN AnyV(t)
       ELSE V(t, FALSE, FALSE, FALSE, CASE m = "floor" -> f [] m = "ceiling" -> -Floor(-v.a, v.d) [] OTHER -> r, 1, <<>>)
Call(m, a) ==
  IF Len(a) \notin Arity[m] THEN Err
  ELSE IF m \in {"round", "floor", "ceiling"} THEN RoundV(m, a[1])
  ELSE IF m \in Dates
  THEN IF a[1].t = "Null" THEN Unk ELSE IF a[1].t # "DateTime" THEN Err
       ELSE IF a[1].n THEN NullV("Int32") ELSE IF a[1].u THEN AnyV("Int32") ELSE I32(IF m = "second" THEN a[1].s[6] \div 1000 ELSE a[1].s[DateField[m]])
  ELSE IF m = "substring"
  THEN IF a[1].t = "Null" \/ \E i \in 2..Len(a) : a[i].t = "Null" THEN Unk
       ELSE IF a[1].t # "String" \/ \E i \in 2..Len(a) : a[i].t # "Int32" THEN
            (IF a[1].t = "String" /\ \A i \in 2..Len(a) : a[i].t \in {"Int32", "Int16", "Byte", "Int64"} THEN Unk ELSE Err)
       ELSE IF a[1].n \/ a[2].n THEN NullV("String")
       ELSE IF Len(a) = 3 /\ a[3].n THEN Unk
       ELSE IF \E i \in 1..Len(a) : a[i].u THEN AnyV("String")
       ELSE IF a[2].a < 0 \/ (Len(a) = 3 /\ a[3].a < 0) THEN Unk
       ELSE Str(Sub(a[1].s, a[2].a, IF Len(a) = 3 THEN a[3].a ELSE Len(a[1].s)))
  ELSE IF m \in Strict /\ \E i \in 1..Len(a) : a[i].t = "Null" THEN Unk
  ELSE IF \E i \in 1..Len(a) : a[i].t \notin {"String", "Null"} THEN Err
  ELSE IF \E i \in 1..Len(a) : a[i].n THEN NullV(ResType[m])
  ELSE IF \E i \in 1..Len(a) : a[i].u THEN AnyV(ResType[m])
  ELSE LET s(i) == a[i].s IN
   CASE m = "startswith" -> Bool(SubAt(s(1), s(2), 1))
     [] m = "endswith" -> Bool(Len(s(2)) <= Len(s(1)) /\ SubAt(s(1), s(2), Len(s(1)) - Len(s(2)) + 1))
     [] m = "substringof" -> Bool(Find(s(2), s(1)) >= 0)
     [] m = "indexof" -> I32(Find(s(1), s(2)))
     [] m = "replace" -> IF s(2) = <<>> THEN AnyV("String") ELSE Str(Repl(s(1), s(2), s(3)))
     [] m = "tolower" -> IF \E i \in 1..Len(s(1)) : s(1)[i] > 127 THEN AnyV("String") ELSE Str(MapSeq(s(1), Low))
     [] m = "toupper" -> IF \E i \in 1..Len(s(1)) : s(1)[i] > 127 THEN AnyV("String") ELSE Str(MapSeq(s(1), Up))
     [] m = "trim" -> IF \E i \in 1..Len(s(1)) : s(1)[i] > 127 THEN AnyV("String") ELSE Str(LTrim(RTrim(s(1))))
     [] m = "concat" -> Str(s(1) \o s(2))
     [] m = "length" -> I32(Len(s(1)))

---------------------------------------------------------------- (* evaluation *)
\* env is a sequence of contexts [p |-> <<<<name, value>>, ...>>]; an entity or complex value is V("Entity"|"Complex", .., a = index)
Look(pairs, name) == IF \E i \in 1..Len(pairs) : pairs[i][1] = name
                     THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = name][2] ELSE Err
RECURSIVE Eval(_, _, _, _), Args(_, _, _, _)
CastTo(v, tn, fq) ==
  IF v.n THEN (IF tn \in Simple \ {"Null"} THEN NullV(tn) ELSE NullV("Null"))
  ELSE IF v.t = "Entity" THEN (IF v.s = <<>> THEN Unk ELSE IF tn = fq[v.a] THEN v ELSE Err)
  ELSE IF v.t \notin Simple THEN Err
  ELSE IF tn \notin Simple \ {"Null"} THEN Err
  ELSE IF Promote(tn, v.t) # tn THEN Err
  ELSE IF v.u THEN AnyV(tn) ELSE To(tn, v)
IsOf(v, tn, fq) ==
  IF v.n THEN Bool(FALSE)
  ELSE IF v.t = "Entity" THEN (IF v.s = <<>> THEN Unk ELSE Bool(tn = fq[v.a]))
  ELSE IF v.t \notin Simple THEN Err
  ELSE IF tn \notin Simple \ {"Null"} THEN Err
  ELSE Bool(Promote(tn, v.t) = tn)
\* E = [lits, names, ctx]: lits: <<text, value>> pairs; names: <<text, type name>> of string literals naming types
Eval(E, a, c, dummy) ==
  CASE a[1] = "lit" -> Look(E.lits, a[2])
    [] a[1] = "prop" -> IF c = 0 THEN Err ELSE Look(E.ctx[c].p, a[2])
    [] a[1] = "un" -> LET v == Eval(E, a[3], c, 0) IN
         IF v.t \in {"ERR", "UNK"} THEN v ELSE IF a[2] = "not" THEN Not(v) ELSE Neg(v)
    [] a[1] = "bin" /\ a[2] = "/" -> LET v == Eval(E, a[3], c, 0) IN
         IF v.t \in {"ERR", "UNK"} THEN v
         ELSE IF v.t \in {"Entity", "Complex"} THEN Eval(E, a[4], v.a, 0) ELSE Err
    [] a[1] = "bin" -> LET l == Eval(E, a[3], c, 0) r == Eval(E, a[4], c, 0) IN
         IF l.t = "UNK" \/ r.t = "UNK" THEN Unk
         ELSE IF a[2] \in {"and", "or"} /\ r.t = "ERR" /\ l.t = "Boolean" /\ ~l.n THEN Unk   \* evaluating the right side is optional
         ELSE IF l.t = "ERR" \/ r.t = "ERR" THEN Err
         ELSE IF l.t = "Entity" /\ r.t = "Entity" /\ a[2] \in {"eq", "ne"}
              THEN LET b == l.a = r.a IN Bool(IF a[2] = "eq" THEN b ELSE ~b)
         ELSE IF l.t \notin Simple \/ r.t \notin Simple THEN Err
         ELSE CASE a[2] \in {"add", "sub", "mul", "div", "mod"} -> Arith(a[2], l, r)
                [] a[2] \in {"lt", "le", "gt", "ge"} -> Relation(a[2], l, r)
                [] a[2] = "eq" -> Equal(l, r)
                [] a[2] = "ne" -> Flip(Equal(l, r))
                [] OTHER -> Logic(a[2], l, r)
    [] a[1] = "call" /\ a[2] \in {"isof", "cast"} ->
         LET v == IF Len(a[3]) = 2 THEN Eval(E, a[3][1], c, 0) ELSE V("Entity", c = 0, FALSE, FALSE, c, 1, <<1>>)
             nm == a[3][Len(a[3])][2]
             tn == IF \E i \in 1..Len(E.names) : E.names[i][1] = nm THEN (LET i == CHOOSE i \in 1..Len(E.names) : E.names[i][1] = nm IN E.names[i][2]) ELSE "?" IN
         IF v.t \in {"ERR", "UNK"} THEN v
         ELSE IF a[2] = "cast" THEN CastTo(v, tn, E.fq) ELSE IsOf(v, tn, E.fq)
    [] a[1] = "call" -> LET vs == Args(E, a[3], c, 1) IN
         IF \E i \in 1..Len(vs) : vs[i].t = "UNK" THEN Unk
         ELSE IF \E i \in 1..Len(vs) : vs[i].t = "ERR" THEN Err
         ELSE IF Len(vs) \notin Arity[a[2]] THEN Err
         ELSE IF \E i \in 1..Len(vs) : vs[i].t \notin Simple THEN Err
         ELSE Call(a[2], vs)
Args(E, as, c, i) == [j \in 1..Len(as) |-> Eval(E, as[j], c, 0)]

---------------------------------------------------------------- (* does an observed value agree? *)
\* observed: [t, n, a, d, f, s]: a/d exact when small, else d = 0 and f = floor(1000 * value)
SmallDen(d) == d \in {1, 2, 4, 8, 16}
ValueOK(e, o) ==
  IF e.t = "UNK" THEN TRUE
  ELSE IF e.t = "ERR" THEN o.t = "ERR"
  ELSE IF o.t # e.t THEN FALSE
  ELSE IF e.u THEN TRUE
  ELSE IF e.n # o.n THEN FALSE
  ELSE IF e.n THEN TRUE
  ELSE IF e.t \in NumTypes
       THEN LET th(n, d) == Floor(1000 * (n % d), d) + 1000 * Floor(n, d)
                f == IF o.d # 0 THEN th(o.a, o.d) ELSE o.f IN
            IF o.d # 0 /\ o.a * e.d = e.a * o.d THEN TRUE
            ELSE IF ~e.x /\ (o.d # 0 \/ SmallDen(e.d)) THEN FALSE
            ELSE f \in (th(e.a, e.d) - 1)..(th(e.a, e.d) + 1)
  ELSE IF e.t = "Boolean" THEN o.a = e.a
  ELSE IF e.t \in {"Entity", "Complex"} THEN TRUE
  ELSE o.s = e.s
=============================================================================
